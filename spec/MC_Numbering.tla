---------------------------- MODULE MC_Numbering ----------------------------
(***************************************************************************)
(* Layouts: shapes of one to four elements, every set of prescribed        *)
(* degrees of freedom (up to 9 of them), duplicates and unconnected ones   *)
(* among them, different names of the nodes, different orders of all       *)
(* lists, with and without an inclined support.                            *)
(*                                                                         *)
(* State: <<shape, names, mask, flaw, order>>.  PICK: one in PICK masks,   *)
(* FLAWPICK: one in FLAWPICK of what follows.                              *)
(* Emitted: the layout, the solution if there is one, single queries.      *)
(***************************************************************************)
EXTENDS Catalogue
VARIABLE c

Shapes == <<BeamShape(1), TrussShape(1), SpaceShape(1), Frames[1], Frames[2], Frames[4], Frames[6], Trusses[1], Trusses[3],
            \* plane and space elements at the same nodes
            [nodes |-> Trusses[3].nodes, bars |-> <<Bar("truss3d", "O", "P"), Bar("frame2d", "O", "R"), Bar("truss3d", "Q", "R"), Bar("truss3d", "P", "Q")>>],
            [nodes |-> Frames[1].nodes, bars |-> <<Bar("truss2d", "C", "B"), Bar("truss2d", "B", "A"), Bar("frame2d", "A", "B")>>]>>
NameSets == << <<"A", "B", "C", "D">>, <<"b", "B", "a", "_">>, <<"10", "2", "9", "1">>, <<"n-1", "n", "n1", "N">>, <<"z", "\\", "x y", "~">>, <<"AB", "A", "ABA", "B">> >>
Renamed(sh, ns) ==
  LET new(id) == ns[CHOOSE i \in 1..Len(sh.nodes) : sh.nodes[i].id = id] IN
  TLCEval([nodes |-> [i \in 1..Len(sh.nodes) |-> [sh.nodes[i] EXCEPT !.id = ns[i]]],
   bars |-> [k \in 1..Len(sh.bars) |-> [sh.bars[k] EXCEPT !.n0 = new(@), !.n1 = new(@)]]])
Sh(s) == Renamed(Shapes[s[1]], NameSets[s[2]])
Dofs(s) == ShapeDofs(Sh(s))
(* which of the degrees of freedom a mask can contain: the first ones of a rotated list *)
Window(s) == LET D == Dofs(s) n == Len(D) k == Draw(SubSeq(s, 1, 2), 9, n) IN
             [i \in 1..(IF n < 9 THEN n ELSE 9) |-> D[((i + k - 1) % n) + 1]]
FixedOf(s) == Subset(Window(s), s[3] - 1)
Foreign(s) == << <<"nowhere", "Ux">>, <<Sh(s).nodes[1].id, "Phix">>, <<Sh(s).nodes[2].id, "Phiz">>, <<"", "Uz">> >>
Bc(x) == [node |-> x[1], dof |-> x[2], val |-> "0"]
(* flaw 1: none, 2: the first one twice, 3: the last one twice, 4..6: foreign ones, 7: foreign and twice, 8: inclined support *)
Flaws == 8
ListOf(s) ==
  LET L == Supports(FixedOf(s), "none") F == Foreign(s) k == s[4] IN
  CASE k = 1 \/ k = 8 -> L
    [] k = 2 -> IF L = <<>> THEN L ELSE L \o <<L[1]>>
    [] k = 3 -> IF L = <<>> THEN L ELSE <<[L[Len(L)] EXCEPT !.val = "1"]>> \o L
    [] k = 4 -> <<Bc(F[1])>> \o L
    [] k = 5 -> L \o <<Bc(F[2])>>
    [] k = 6 -> L \o <<Bc(F[3]), Bc(F[4])>>
    [] k = 7 -> IF L = <<>> THEN <<Bc(F[1]), Bc(F[1])>> ELSE <<Bc(F[2]), L[1]>> \o L
(* at the node of the mask's first free displacement *)
LinkOf(s) ==
  IF s[4] # 8 THEN <<>>
  ELSE LET free == SelectSeq(Dofs(s), LAMBDA x : x[2] = "Ux" /\ <<x[1], "Ux">> \notin FixedOf(s) /\ <<x[1], "Uz">> \notin FixedOf(s)) IN
       IF free = <<>> THEN <<>> ELSE <<[node |-> free[1][1], from |-> "Ux", to |-> "Uz", c |-> "3/5", s |-> "4/5"]>>
Rotate(seq, k) == IF seq = <<>> THEN seq ELSE SubSeq(seq, (k % Len(seq)) + 1, Len(seq)) \o SubSeq(seq, 1, k % Len(seq))
Order(seq, k) == CASE k = 1 -> seq [] k = 2 -> Reverse(seq) [] OTHER -> Rotate(seq, 1)
StOf(s) ==
  LET sh == Sh(s) St == Structure(sh, [k \in 1..Len(sh.bars) |-> {}], 1, ListOf(s), LinkOf(s), [k \in 1..Len(sh.bars) |-> <<>>], <<>>) IN
  [St EXCEPT !.nodes = Order(@, s[5]), !.elems = Order(@, s[5]), !.dirichlet = Order(@, s[5])]
Queries(s) ==
  LET D == Dofs(s) F == Foreign(s)
      ask(x, what) == [op |-> "get", r |-> "R", what |-> what, node |-> x[1], dof |-> x[2]]
  IN [i \in 1..Len(D) |-> ask(D[i], IF i % 2 = 0 THEN "primary" ELSE "reaction")] \o [i \in 1..Len(F) |-> ask(F[i], IF i % 2 = 0 THEN "primary" ELSE "reaction")]
Ops(s) == <<[op |-> "mk", p |-> "P", st |-> ForDriver(StOf(s))], [op |-> "layout", p |-> "P", l |-> "L"],
            [op |-> "solve", r |-> "R", p |-> "P", l |-> "L", s |-> "S"], [op |-> "all", r |-> "R"]>> \o Queries(s)

Pick == EnvNat("PICK", 1)
FlawPick == EnvNat("FLAWPICK", 1)
Options(s) ==
  CASE Len(s) = 0 -> Len(Shapes) [] Len(s) = 1 -> Len(NameSets)
    [] Len(s) = 2 -> Pow2(Len(Window(s)))
    [] Len(s) = 3 -> Flaws [] Len(s) = 4 -> 3 [] OTHER -> 0
Init == c = <<>>
Next == \E k \in 1..Options(c) :
  /\ c' = Append(c, k)
  /\ Holds(Len(c') = 3 => OneIn(c', Pick))
  /\ Holds(Len(c') >= 4 => OneIn(c', FlawPick))
  /\ IF Len(c') = 5 THEN Emit([ops |-> Ops(c')]) ELSE TRUE
Spec == Init /\ [][Next]_c

-----------------------------------------------------------------------------
Sorted(seq) == \A i \in 1..(Len(seq) - 1) : LET d == StrCmp(seq[i][1], seq[i+1][1]) IN
                  d < 0 \/ (d = 0 /\ DofNo(seq[i][2]) < DofNo(seq[i+1][2]))
Numbered ==
  Len(c) = 5 =>
    LET St == StOf(c) order == DofOrder(St) m == Len(Prescribed(St)) n == Cardinality(AllDofs(St)) IN
    /\ LayoutOk(St) <=> c[4] \in {1, 8} \/ (c[4] \in {2, 3} /\ FixedOf(c) = {})
    /\ LayoutOk(St) =>
         /\ Len(order) = n /\ ToSet(order) = AllDofs(St)                      \* every one exactly once
         /\ ToSet(SubSeq(order, 1, m)) = PrescribedSet(St)                    \* prescribed ones first
         /\ Sorted(SubSeq(order, 1, m)) /\ Sorted(SubSeq(order, m + 1, n))
         /\ order = DofOrder(StOf([c EXCEPT ![5] = 1]))                       \* the order of the lists doesn't matter
    /\ \A x \in Duplicates(St) \cup Unconnected(St) : x \in PrescribedSet(St)
    \* nodes of plane elements only have no displacement out of the plane
    /\ \A x \in AllDofs(St) : x[2] \in {"Ux", "Uz"} \/ \E i \in 1..Len(St.elems) : x[1] \in {St.elems[i].n0, St.elems[i].n1}
                                                         /\ St.elems[i].kind = IF x[2] = "Uy" THEN "truss3d" ELSE "frame2d"
=============================================================================
