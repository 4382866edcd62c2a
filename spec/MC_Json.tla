------------------------------ MODULE MC_Json ------------------------------
(***************************************************************************)
(* Every document that differs from a valid one at one place: at every     *)
(* place of the document, every change from a catalogue (something is      *)
(* removed, added, doubled, renamed, replaced by another value, or by one  *)
(* of another type).  The specification classifies the results (valid,     *)
(* deferred, vague, extra, flawed).                                        *)
(*                                                                         *)
(* State: <<base, place, change>> as numbers.  PICK: one in PICK places.   *)
(* PICK2: a second place is changed, too (one in PICK2).                   *)
(* SIBLINGS: a changed copy of something besides the original, which is    *)
(* correct and must not hide the copy (one in PICK places, one in SIBLINGS *)
(* changes).                                                               *)
(* Emitted: the documents, to be parsed, dumped, and solved.               *)
(***************************************************************************)
EXTENDS Edits
VARIABLE c

(* the base documents *)
Base(i) ==
  LET beam == Frames[4] bent == Frames[2] space == Trusses[3] tri == Trusses[1]
      none(sh) == [k \in 1..Len(sh.bars) |-> {}]
      fix(n, ds) == [k \in 1..Len(ds) |-> [node |-> n, dof |-> ds[k], val |-> "0"]]
      force(n, d, v) == [node |-> n, dof |-> d, val |-> v]
  IN CASE i = 1 -> Structure(beam, <<{"t1"}, {}>>, 0, fix("a", <<"Ux", "Uz", "Phiy">>) \o fix("c", <<"Uz">>),
                             <<[node |-> "b", from |-> "Ux", to |-> "Uz", c |-> "3/5", s |-> "4/5"]>>,
                             <<<<PointLoad("Uz", "3", "5"), WedgeLoad("Uz", "1", "-2")>>, <<LineLoad("Ux", "2")>>>>, <<force("b", "Phiy", "4"), force("c", "Ux", "-1")>>)
      [] i = 2 -> Structure(bent, <<{"u1", "t0"}, {"w1"}>>, 1, fix("C", <<"Ux", "Uz", "Phiy">>) \o fix("B", <<"Ux", "Uz", "Phiy">>), <<>>,
                            <<<<PointLoad("Phiy", "0", "1")>>, <<>>>>, <<force("A", "Ux", "4")>>)
      [] i = 3 -> Structure(space, none(space), 2, fix("P", <<"Ux", "Uz", "Uy">>) \o fix("Q", <<"Ux", "Uz", "Uy">>) \o fix("R", <<"Uy">>),
                            <<[node |-> "R", from |-> "Ux", to |-> "Uz", c |-> "-5/13", s |-> "12/13"]>>, <<<<>>, <<PointLoad("Ux", "1", "1")>>, <<>>>>, <<force("O", "Uy", "4")>>)
      [] OTHER -> Trim(Structure([tri EXCEPT !.bars = <<tri.bars[1], tri.bars[2], tri.bars[3]>>], none(tri), 3,
                       fix("A", <<"Ux", "Uz">>) \o fix("B", <<"Uz">>), <<>>, <<<<>>, <<LineLoad("Ux", "1")>>, <<>>>>, <<force("C", "Uz", "-4")>>))
Bases == EnvNat("BASES", 4)
BaseStyle == << {}, {"explicit"}, {"split", "line"}, {"empty", "more"} >>
DocBase == TLCEval([i \in 1..4 |-> DocOf(Trim(Decimals(Base(i))), BaseStyle[((i + Seed) % 4) + 1])])

-----------------------------------------------------------------------------
JsonNumbers == <<"0", "-1", "1", "2", "1e3", "-1e-9", "1e400", "0.5">>
JsonTexts == <<"", "Ux", "Uz", "Uy", "Phiy", "Phix", "Fx", "Fz", "qz", "My", "mz", "nope", "truss2d", "truss3d", "frame2d", "frame3d", "rectangle", "constants",
           "linelast", "dirac", "constant", "linear", "quadratic", "A", "B", "a", "c", "O", "m0", "c1", "ux", "1">>
Split(n, sep) == IF StrLen(n) = 2 THEN StrCat(StrAt(n, 1), StrCat(sep, StrAt(n, 2))) ELSE StrCat(n, sep)
JsonNames(n) == <<Split(n, "-"), Split(n, " "), StrCat(n, "x"), StrCat("x", n), "", StrLower(n), "nodes", "neumann", "kind", "Ux", "Fx", "Phiz", "qx", "My", "b", "E", "roll", "angle", "to", "ab", "A", "C", "O">>

Pick == EnvNat("PICK", 1)
Pick2 == EnvNat("PICK2", 0)
PlacesOf(doc) == TLCEval(Places2(doc, <<>>))
PlacesBase == TLCEval([i \in 1..4 |-> PlacesOf(DocBase[i])])
DocAt(s) == TLCEval(ChangeAt(DocBase[s[1]], PlacesBase[s[1]][s[2]], s[3]))
Siblings == EnvNat("SIBLINGS", 0)
CopyPath(s) == PlacesBase[s[1]][s[2]]
DocCopied(s) == TLCEval(CopyAt(DocBase[s[1]], CopyPath(s)))
PlacesOfCopy(s) == TLCEval([i \in 1..Len(PlacesOf(Find(DocCopied(s), CopyPath(s)))) |-> CopyPath(s) \o PlacesOf(Find(DocCopied(s), CopyPath(s)))[i]])
DocSibling(s) == TLCEval(ChangeAt(DocCopied(s), PlacesOfCopy(s)[s[3]], s[4]))
DocAt2(s) == LET doc == DocAt(s) IN TLCEval(ChangeAt(doc, PlacesOf(doc)[s[4]], s[5]))
(* changes that are never left out: of the form of loads, and names of elements that aren't those of two nodes any more *)
Always(b, p, k) == LET path == PlacesBase[b][p] IN
  \/ IsForm(DocBase[b], path, k)
  \/ Len(path) = 2 /\ DocBase[b].k[path[1]].n = "elements" /\ k \in 3..4
Options(s) ==
  CASE Len(s) = 0 -> Bases
    [] Len(s) = 1 -> Len(PlacesBase[s[1]])
    [] Siblings > 0 -> (CASE Len(s) = 2 -> IF CopyPath(s) = <<>> THEN 0 ELSE Len(PlacesOfCopy(s))
                          [] Len(s) = 3 -> CountAt(DocCopied(s), PlacesOfCopy(s)[s[3]])
                          [] OTHER -> 0)
    [] Len(s) = 2 -> CountAt(DocBase[s[1]], PlacesBase[s[1]][s[2]])
    [] Len(s) = 3 /\ Pick2 > 0 -> Len(PlacesOf(DocAt(s)))
    [] Len(s) = 4 -> CountAt(DocAt(s), PlacesOf(DocAt(s))[s[4]])
    [] OTHER -> 0
Init == c = <<>>
Next == \E k \in 1..Options(c) :
  /\ c' = Append(c, k)
  /\ Holds((Len(c') = IF Siblings > 0 THEN 2 ELSE 3) => (OneIn(c', Pick) \/ (Len(c') = 3 /\ Pick2 = 0 /\ Always(c[1], c[2], k))))
  /\ Holds(Siblings > 0 /\ Len(c') = 4 => OneIn(c', Siblings))
  /\ Holds(Len(c') = 5 => OneIn(c', Pick2))
  /\ Holds(Siblings = 0 /\ Len(c') = 4 => OneIn(c', 20))
  /\ IF Siblings > 0 THEN IF Len(c') = 4 THEN Emit([ops |-> ParseOps(DocSibling(c'), "")]) ELSE TRUE
     ELSE IF Len(c') = 3 THEN Emit([ops |-> ParseOps(DocAt(c'), "")]) ELSE IF Len(c') = 5 THEN Emit([ops |-> ParseOps(DocAt2(c'), "")]) ELSE TRUE
Spec == Init /\ [][Next]_c

-----------------------------------------------------------------------------
(* every document has exactly one class; classes are the same for equal documents written in another order *)
Classes == {"valid", "deferred", "vague", "extra", "flawed"}
RECURSIVE Turned(_)
Turned(v) == CASE v.t = "obj" -> [v EXCEPT !.k = Reverse([i \in 1..Len(@) |-> [@[i] EXCEPT !.v = Turned(@)]])]
               [] v.t = "arr" -> [v EXCEPT !.a = [i \in 1..Len(@) |-> Turned(@[i])]]
               [] OTHER -> v
Sound ==
  /\ Len(c) = 1 => DocClass(DocBase[c[1]]) = "valid"
  /\ Len(c) = (IF Siblings > 0 THEN 4 ELSE 3) => LET doc == TLCEval(IF Siblings > 0 THEN DocSibling(c) ELSE DocAt(c)) IN
       /\ DocClass(doc) \in Classes
       /\ DocClass(Turned(doc)) = DocClass(doc)
       \* a document without flaws describes something: elements between existing nodes, and loads on them
       /\ DocClass(doc) \in {"valid", "deferred", "extra"} =>
            LET St == Described(doc) IN
            /\ \A i \in 1..Len(St.elems) : HasId(St.nodes, St.elems[i].n0) /\ HasId(St.nodes, St.elems[i].n1) /\ HasId(St.mats, St.elems[i].mat) /\ HasId(St.css, St.elems[i].cs)
            /\ \A e \in DOMAIN St.bag : \A i \in 1..Len(St.bag[e]) : Accepts(St, e, St.bag[e][i])
       /\ DocClass(doc) = "valid" => LayoutOk(Described(doc))
=============================================================================
