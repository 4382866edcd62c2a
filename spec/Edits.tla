------------------------------- MODULE Edits -------------------------------
(***************************************************************************)
(* Changes of JSON values: at every place of a document, something is      *)
(* removed, doubled, renamed, added, or replaced by another value, or by   *)
(* one of another type.  The values and names to use are given by the      *)
(* model.                                                                  *)
(***************************************************************************)
EXTENDS Documents
CONSTANTS Numbers, Texts, MemberNames(_)

(* Places: sequences of numbers of members *)
Kids(v) == CASE v.t = "obj" -> Len(v.k) [] v.t = "arr" -> Len(v.a) [] OTHER -> 0
Kid(v, i) == IF v.t = "obj" THEN v.k[i].v ELSE v.a[i]
RECURSIVE Places2(_, _)
Places2(v, here) == <<here>> \o FlattenSeq([i \in 1..Kids(v) |-> Places2(Kid(v, i), Append(here, i))])
RECURSIVE Find(_, _)
Find(v, path) == IF path = <<>> THEN v ELSE Find(Kid(v, Head(path)), Tail(path))
(* v with another value at the place *)
RECURSIVE PutAt(_, _, _)
PutAt(v, path, new) ==
  IF path = <<>> THEN new
  ELSE IF v.t = "obj" THEN [v EXCEPT !.k[Head(path)].v = PutAt(v.k[Head(path)].v, Tail(path), new)]
  ELSE [v EXCEPT !.a[Head(path)] = PutAt(v.a[Head(path)], Tail(path), new)]
Without(seq, i) == SubSeq(seq, 1, i - 1) \o SubSeq(seq, i + 1, Len(seq))
Twice(seq, i) == SubSeq(seq, 1, i) \o SubSeq(seq, i, Len(seq))
WithKids(v, f(_)) == IF v.t = "obj" THEN [v EXCEPT !.k = f(v.k)] ELSE [v EXCEPT !.a = f(v.a)]

Values(v) ==
  CASE v.t = "num" -> [i \in 1..Len(Numbers) |-> JNum(Numbers[i])]
    [] v.t = "str" -> [i \in 1..Len(Texts) |-> JStr(Texts[i])] \o <<JStr(StrLower(v.s)), JStr(StrCat(v.s, " ")), JStr(StrCat(" ", v.s)), JStr(StrCat(v.s, v.s))>>
    [] v.t = "obj" -> <<JObj(<<>>)>>
    [] v.t = "arr" -> <<JArr(<<>>)>>
    [] OTHER -> <<>>
Types(v) == <<JNum("1"), JStr("1"), [t |-> "bool", s |-> "true"], JObj(<<>>), JArr(<<>>), JArr(<<v>>), JObj(<<KV("x", v)>>), [t |-> "null"]>>
Extras(v) ==
  CASE v.t = "obj" -> [i \in 1..8 |-> [v EXCEPT !.k = Append(@, KV(<<"x", "Ux", "Fx", "position", "Phiz", "a", "x", "qx">>[i],
                                                                 IF i \in {1, 4} THEN JArr(<<JNum("1")>>) ELSE JNum(IF i >= 6 THEN "0" ELSE "1")))]]
    [] v.t = "arr" -> <<[v EXCEPT !.a = Append(@, IF @ = <<>> THEN JNum("1") ELSE @[Len(@)])], [v EXCEPT !.a = Append(@, JStr("Ux"))], [v EXCEPT !.a = Reverse(@)]>>
    [] OTHER -> <<>>
(* element loads with other numbers of values and positions *)
Ones(n) == JArr([i \in 1..n |-> JNum("1")])
IsLoadV(v) == v.t = "obj" /\ \E i \in 1..Len(v.k) : v.k[i].n = "values"
LoadForms(v) ==
  IF ~IsLoadV(v) THEN <<>>
  ELSE LET rest == SelectSeq(v.k, LAMBDA x : x.n \notin {"values", "position"}) IN
       [i \in 1..16 |-> JObj(rest \o <<KV("values", Ones((i - 1) \div 4))>> \o (IF i % 4 = 0 THEN <<>> ELSE <<KV("position", Ones((i % 4) - 1))>>))]
(* words that are close to, but not among those with a meaning *)
Words(s) == CASE s \in {"truss2d", "truss3d", "frame2d"} -> <<"beam2d", "frame", "truss", "Frame2d", "frame2d2", "truss3", "bar2d">>
              [] s = "linelast" -> <<"linelastic", "elastic", "LinElast", "isotropic">>
              [] s \in {"constants", "rectangle"} -> <<"constant", "rect", "Rectangle", "circle", "square", "rectangles">>
              [] s \in {"dirac", "constant", "linear"} -> <<"point", "uniform", "Dirac", "constants", "lin", "triangle">>
              [] OTHER -> <<>>
Neighbours(v) == IF v.t = "str" THEN [i \in 1..Len(Words(v.s)) |-> JStr(Words(v.s)[i])] ELSE <<>>
Forms(v) == LoadForms(v) \o Neighbours(v)
(* The changes at a place: of the value itself, and of the member of its parent *)
OwnChanges(v) == Forms(v) \o Values(v) \o Types(v) \o Extras(v)
Edge(doc, path) == IF path = <<>> THEN 0
                   ELSE LET parent == Find(doc, SubSeq(path, 1, Len(path) - 1)) IN 2 + IF parent.t = "obj" THEN Len(MemberNames("")) ELSE 0
IsForm(doc, path, k) == k > Edge(doc, path) /\ k - Edge(doc, path) <= Len(Forms(Find(doc, path)))
CountAt(doc, path) == Edge(doc, path) + Len(OwnChanges(Find(doc, path)))
ChangeAt(doc, path, k) ==
  LET edge == Edge(doc, path) IN
  IF k > edge THEN PutAt(doc, path, OwnChanges(Find(doc, path))[k - edge])
  ELSE LET up == SubSeq(path, 1, Len(path) - 1) i == path[Len(path)] parent == Find(doc, up) IN
       PutAt(doc, up, CASE k = 1 -> WithKids(parent, LAMBDA ks : Without(ks, i))
                        [] k = 2 -> WithKids(parent, LAMBDA ks : Twice(ks, i))
                        [] OTHER -> [parent EXCEPT !.k[i].n = MemberNames(parent.k[i].n)[k - 2]])
(* a copy of a member before the member itself, under another name if it has one *)
CopyAt(doc, path) ==
  LET up == SubSeq(path, 1, Len(path) - 1) i == path[Len(path)] IN
  PutAt(doc, up, LET ks == WithKids(Find(doc, up), LAMBDA k : Twice(k, i)) IN
                 IF ks.t = "obj" THEN [ks EXCEPT !.k[i].n = StrCat(@, "2")] ELSE ks)
=============================================================================
