----------------------------- MODULE Documents -----------------------------
(***************************************************************************)
(* Structures written as JSON documents, in different styles.  A style is  *)
(* a set of "explicit" (names even where they can be omitted), "split"     *)
(* (one object per value), "late" (sections in the opposite order),        *)
(* "line" (names of line loads for all loads of elements), "loadsfirst"    *)
(* (element loads before nodal ones), "more" (other things at the top),    *)
(* "empty" (empty lists where nothing is to be listed).                    *)
(***************************************************************************)
EXTENDS Catalogue, JsonInput

JObj(ps) == [t |-> "obj", k |-> ps]
JArr(vs) == [t |-> "arr", a |-> vs]
JStr(s) == [t |-> "str", s |-> s]
JNum(s) == [t |-> "num", s |-> s]
KV(n, v) == [n |-> n, v |-> v]
MapSeq(seq, F(_)) == [i \in 1..Len(seq) |-> F(seq[i])]

(* JSON has no fractions: all numbers as decimals *)
Decimals(St) ==
  LET bc(b) == [b EXCEPT !.val = RDecimal(@)]
      load(l) == CASE l.type = "dirac" -> [l EXCEPT !.v0 = RDecimal(@), !.pos = RDecimal(@)]
                   [] l.type = "linear" -> [l EXCEPT !.v0 = RDecimal(@), !.v1 = RDecimal(@)]
                   [] OTHER -> [l EXCEPT !.v0 = RDecimal(@)]
  IN TLCEval([St EXCEPT !.nodes = MapSeq(@, LAMBDA n : [id |-> n.id, x |-> RDecimal(n.x), y |-> RDecimal(n.y), z |-> RDecimal(n.z)]),
                !.css = MapSeq(@, LAMBDA cs : [cs EXCEPT !.par = [k \in DOMAIN @ |-> RDecimal(@[k])]]),
                !.dirichlet = MapSeq(@, bc), !.neumann = MapSeq(@, bc),
                !.bag = [e \in DOMAIN @ |-> MapSeq(@[e], load)]])

DofForce == [Ux |-> "Fx", Uz |-> "Fz", Uy |-> "Fy", Phiy |-> "My", Phiz |-> "Mz", Phix |-> "Mx"]
DofLine == [Ux |-> "qx", Uz |-> "qz", Uy |-> "qy", Phiy |-> "my", Phiz |-> "mz", Phix |-> "mx"]

(* objects of names and values per place: items is a sequence of [at, n, v] *)
Places(items) == SetToSortSeq({items[i].at : i \in 1..Len(items)}, LAMBDA a, b : StrCmp(a, b) < 0)
RECURSIVE Pack(_, _, _)
(* values one after the other in one object, as long as names differ; split: one object for each *)
Pack(ps, k, split) ==
  IF k > Len(ps) THEN <<>>
  ELSE LET RECURSIVE End(_)
           End(m) == IF split \/ m > Len(ps) \/ (\E i \in k..(m - 1) : ps[i].n = ps[m].n) THEN m - 1 ELSE End(m + 1)
           e == IF split THEN k ELSE End(k + 1)
       IN <<JObj([i \in 1..(e - k + 1) |-> KV(ps[k + i - 1].n, ps[k + i - 1].v)])>> \o Pack(ps, e + 1, split)
Grouped(items, split) ==
  MapSeq(Places(items), LAMBDA p : [at |-> p, os |-> Pack(SelectSeq(items, LAMBDA x : x.at = p), 1, split)])

ParObj(par) == LET ks == SetToSeq(DOMAIN par) IN JObj(MapSeq(ks, LAMBDA k : KV(k, JNum(par[k]))))
Omittable(e) == StrLen(e.n0) = 1 /\ StrLen(e.n1) = 1 /\ e.id = StrCat(e.n0, e.n1)
HingeObj(e) ==
  LET ns == SetToSeq({e.hinges[i].node : i \in 1..Len(e.hinges)})
      of(n) == SelectSeq(e.hinges, LAMBDA h : h.node = n)
  IN JObj(MapSeq(ns, LAMBDA n : KV(n, JArr(MapSeq(of(n), LAMBDA h : JStr(h.dof))))))
ElemObj(St, e, style) ==
  LET ex == "explicit" \in style IN
  JObj(<<KV("kind", JStr(e.kind))>>
       \o (IF ex \/ ~Omittable(e) THEN <<KV("nodes", JArr(<<JStr(e.n0), JStr(e.n1)>>))>> ELSE IF "empty" \in style THEN <<KV("nodes", JArr(<<>>))>> ELSE <<>>)
       \o (IF ex \/ Len(St.mats) > 1 THEN <<KV("material", JStr(e.mat))>> ELSE <<>>)
       \o (IF ex \/ Len(St.css) > 1 THEN <<KV("cs", JStr(e.cs))>> ELSE <<>>)
       \o (IF e.hinges # <<>> THEN <<KV("hinges", HingeObj(e))>> ELSE IF "empty" \in style THEN <<KV("hinges", JObj(<<KV(e.n1, JArr(<<>>))>>))>> ELSE <<>>))
LoadObj(l, style) ==
  LET name == IF l.type = "dirac" /\ "line" \notin style THEN DofForce[l.kind] ELSE DofLine[l.kind] IN
  JObj(<<KV("kind", JStr(name)), KV("degree", JStr(l.type)),
         KV("values", JArr(IF l.type = "linear" THEN <<JNum(l.v0), JNum(l.v1)>> ELSE <<JNum(l.v0)>>))>>
       \o (IF l.type = "dirac" THEN <<KV("position", JArr(<<JNum(l.pos)>>))>> ELSE IF "empty" \in style THEN <<KV("position", JArr(<<>>))>> ELSE <<>>))
SlopeOf(l) == Slopes[CHOOSE i \in 1..Len(Slopes) : Slopes[i][1] = l.c /\ Slopes[i][2] = l.s]
LinkObj(l) == JObj(<<KV("from", JStr(l.from)), KV("to", JStr(l.to)), KV("angle", [t |-> "num", s |-> SlopeOf(l)[3], c |-> l.c, sn |-> l.s])>>)

(* St with decimal numbers only *)
DocOf(St, style) ==
  LET nodal == Grouped(MapSeq(St.neumann, LAMBDA b : [at |-> b.node, n |-> DofForce[b.dof], v |-> JNum(b.val)]), "split" \in style)
      fixed == Grouped(MapSeq(St.dirichlet, LAMBDA b : [at |-> b.node, n |-> b.dof, v |-> JNum(b.val)]), "split" \in style)
      loaded == SelectSeq(MapSeq(St.elems, LAMBDA e : [at |-> e.id, os |-> MapSeq(St.bag[e.id], LAMBDA l : LoadObj(l, style))]), LAMBDA x : x.os # <<>>)
      places == SetToSeq({nodal[i].at : i \in 1..Len(nodal)} \cup {loaded[i].at : i \in 1..Len(loaded)})
      of(list, p) == FlattenSeq(MapSeq(SelectSeq(list, LAMBDA x : x.at = p), LAMBDA x : x.os))
      both(p) == IF "loadsfirst" \in style THEN of(loaded, p) \o of(nodal, p) ELSE of(nodal, p) \o of(loaded, p)
      links == SetToSeq({St.links[k].node : k \in 1..Len(St.links)})
      secs == <<KV("nodes", JObj(MapSeq(St.nodes, LAMBDA n : KV(n.id, JArr(<<JNum(n.x), JNum(n.y), JNum(n.z)>>))))),
                KV("material", JObj(MapSeq(St.mats, LAMBDA m : KV(m.id, JObj(<<KV("kind", JStr("linelast")), KV("parameter", ParObj([E |-> m.E, nu |-> m.nu, rho |-> m.rho]))>>))))),
                KV("crosssection", JObj(MapSeq(St.css, LAMBDA s : KV(s.id, JObj(<<KV("kind", JStr(s.kind)), KV("parameter", ParObj(s.par))>>))))),
                KV("elements", JObj(MapSeq(St.elems, LAMBDA e : KV(e.id, ElemObj(St, e, style)))))>>
              \o (IF fixed # <<>> \/ "empty" \in style THEN <<KV("dirichlet", JObj(MapSeq(fixed, LAMBDA g : KV(g.at, JArr(g.os)))))>> ELSE <<>>)
              \o (IF links # <<>> \/ "empty" \in style
                  THEN <<KV("links", JObj(MapSeq(links, LAMBDA n : KV(n, JArr(MapSeq(SelectSeq(St.links, LAMBDA l : l.node = n), LinkObj))))))>> ELSE <<>>)
              \o (IF places # <<>> \/ "empty" \in style THEN <<KV("neumann", JObj(MapSeq(places, LAMBDA p : KV(p, JArr(both(p))))))>> ELSE <<>>)
              \o (IF "more" \in style THEN <<KV("description", JStr("anything")), KV("extra", JArr(<<JNum("1")>>))>> ELSE <<>>)
  IN TLCEval(JObj(IF "late" \in style THEN Reverse(secs) ELSE secs))
(* drop materials and sections that no element uses *)
Trim(St) == [St EXCEPT !.mats = SelectSeq(@, LAMBDA m : \E i \in 1..Len(St.elems) : St.elems[i].mat = m.id),
                       !.css = SelectSeq(@, LAMBDA s : \E i \in 1..Len(St.elems) : St.elems[i].cs = s.id)]

Styles == << {}, {"explicit"}, {"split", "late"}, {"line", "more"}, {"loadsfirst", "empty"}, {"explicit", "split", "line", "late"}, {"empty", "loadsfirst", "line", "more", "split"} >>

ParseOps(doc, tail) ==
  LET n(x) == StrCat(x, tail) IN
  <<[op |-> "parse", p |-> n("P"), doc |-> doc], [op |-> "dump", p |-> n("P")],
    [op |-> "layout", p |-> n("P"), l |-> n("L")], [op |-> "solve", r |-> n("R"), p |-> n("P"), l |-> n("L"), s |-> n("S")], [op |-> "all", r |-> n("R")]>>
InterpOp(St, tail) == [op |-> "interpall", r |-> StrCat("R", tail), p |-> StrCat("P", tail), elems |-> MapSeq(St.elems, LAMBDA e : e.id), tol |-> "1e-12"]

-----------------------------------------------------------------------------
(* What a document says is what was written *)
Bag(seq) == [x \in {seq[i] : i \in 1..Len(seq)} |-> CountOf(seq, x)]
RoundTrip(St, style) ==
  LET doc == DocOf(St, style) d == Described(doc)
      elem(e) == [id |-> e.id, kind |-> e.kind, n0 |-> e.n0, n1 |-> e.n1, mat |-> e.mat, cs |-> e.cs, rel |-> {e.hinges[i] : i \in 1..Len(e.hinges)}]
      free(l) == [l EXCEPT !.id = ""]
  IN /\ DocClass(doc) = "valid"
     /\ d.nodes = St.nodes
     /\ Bag(MapSeq(d.elems, elem)) = Bag(MapSeq(St.elems, elem))
     /\ Bag(d.dirichlet) = Bag(St.dirichlet) /\ Bag(d.neumann) = Bag(St.neumann)
     /\ Bag(d.links) = Bag(St.links)
     /\ Bag(d.mats) = Bag(St.mats) /\ Bag(d.css) = Bag(St.css)
     /\ \A e \in DOMAIN St.bag : MapSeq(d.bag[e], free) = MapSeq(St.bag[e], free)
=============================================================================
