------------------------------- MODULE MC_Api -------------------------------
(***************************************************************************)
(* Histories of API calls: every sequence of calls from a menu, up to      *)
(* DEPTH calls, on a small pool of problems, layouts, solvers, and         *)
(* results.  MENU selects the calls:                                       *)
(*   loads     adding, refusing, and removing element loads                *)
(*   reuse     solving several problems with the same and other solvers,   *)
(*             layouts of other problems, changed boundary conditions,     *)
(*             failing equation solvers                                    *)
(*   dangling  references to things that do not exist, in problems and in  *)
(*             queries                                                     *)
(* What is remembered of a result is the structure it belongs to.          *)
(*                                                                         *)
(* Checked: invariants that describe the state in terms of the history     *)
(* alone, independently of the actions in Api.                             *)
(* Emitted: histories of DEPTH calls, with all results read at the end,    *)
(* and some of them (chosen by hash) after each call.                      *)
(* PICK: one in PICK continuations is explored from the second call on.    *)
(***************************************************************************)
EXTENDS Api, Catalogue

VARIABLES c       \* numbers of the calls made so far
vars == <<c, prob, lay, res>>
Abstract(St, ordered) == [st |-> St, ordered |-> ordered]

Menu == Env("MENU", "loads")
Depth == EnvNat("DEPTH", 3)
Pick == EnvNat("PICK", 1)

-----------------------------------------------------------------------------
(* The pool *)
NoHinges(sh) == [k \in 1..Len(sh.bars) |-> {}]
Hinge1(sh, hs) == [k \in 1..Len(sh.bars) |-> IF k = 1 THEN hs ELSE {}]
Support(n, ds) == [i \in 1..Len(ds) |-> [node |-> n, dof |-> ds[i], val |-> "0"]]
Force(n, d, v) == [node |-> n, dof |-> d, val |-> v]
Inclined(n, f, t, x, y) == [node |-> n, from |-> f, to |-> t, c |-> x, s |-> y]
None(sh) == [k \in 1..Len(sh.bars) |-> <<>>]
Clamped == Support("a", <<"Ux", "Uz", "Phiy">>)
(* a beam with a tie: the tie is supported at an angle *)
Beam(load) == LET sh == Frames[4] IN
  Structure(sh, NoHinges(sh), 0, Clamped \o Support("c", <<"Uz">>), <<>>, <<load, <<>>>>, <<Force("b", "Uz", "-2")>>)
BeamLinked == LET sh == Frames[4] IN
  Structure(sh, Hinge1(sh, {"t0"}), 1, Clamped \o Support("c", <<"Ux", "Uz">>), <<Inclined("b", "Ux", "Uz", "3/5", "4/5")>>, <<<<LineLoad("Uz", "3")>>, <<>>>>, <<Force("b", "Phiy", "-2")>>)
(* the same nodes, but other elements *)
Truss == LET sh == [Frames[4] EXCEPT !.bars = <<Bar("truss2d", "a", "b"), Bar("truss2d", "c", "b"), Bar("truss2d", "a", "c")>>] IN
  Structure(sh, NoHinges(sh), 2, Support("a", <<"Ux", "Uz">>), <<Inclined("c", "Ux", "Uz", "-5/13", "12/13")>>, None(sh), <<Force("b", "Ux", "4"), Force("b", "Uz", "1/2")>>)
Single == LET sh == TrussShape(1) IN
  Structure(sh, NoHinges(sh), 0, Support("A", <<"Ux", "Uz">>) \o Support("B", <<"Uz">>), <<>>, <<<<LineLoad("Ux", "2")>>>>, <<Force("B", "Ux", "1")>>)
Unstable == [Truss EXCEPT !.links = <<>>]
(* names of loads are made different in different problems *)
Named(name, St) == [St EXCEPT !.bag = [e \in DOMAIN @ |-> [i \in 1..Len(@[e]) |-> [@[e][i] EXCEPT !.id = StrCat(name, @)]]]]
Also(St, f, x) == [St EXCEPT ![f] = Append(@, x)]
Pool ==
  CASE Menu = "loads" -> [P |-> Beam(<<PointLoad("Uz", "3", "5")>>)]
    [] Menu = "reuse" -> [P |-> Beam(<<PointLoad("Uz", "3", "5")>>), Q |-> BeamLinked, T |-> Truss, U |-> Unstable]
    [] OTHER -> [P |-> BeamLinked,
                 N |-> Also(BeamLinked, "neumann", Force("nowhere", "Ux", "1")),
                 F |-> Also(BeamLinked, "neumann", Force("c", "Phiy", "0")),
                 D |-> Also(BeamLinked, "dirichlet", Force("a", "Uy", "1")),
                 W |-> Also(BeamLinked, "dirichlet", Force("a", "Ux", "1")),
                 K |-> Also(BeamLinked, "links", Inclined("c", "Uy", "Ux", "3/5", "4/5")),
                 Z |-> [BeamLinked EXCEPT !.dirichlet = <<>>, !.links = <<>>],
                 X |-> [BeamLinked EXCEPT !.dirichlet = Support("a", <<"Ux", "Uz">>) \o Support("b", <<"Phiy">>) \o Support("c", <<"Ux", "Uz">>)],
                 S |-> Single]
ASSUME \A p \in DOMAIN Pool : p \in {"P", "Q", "T", "S"} => Stable(Pool[p])
ASSUME "U" \in DOMAIN Pool => ~Stable(Pool["U"])
PoolNames == SetToSeq(DOMAIN Pool)
PoolOf(p) == Named(p, Pool[p])

-----------------------------------------------------------------------------
(* The calls *)
AddOf(e, load) == [op |-> "add", p |-> "P", elem |-> e, load |-> load]
WithId(id, load) == [load EXCEPT !.id = id]
SolveOf(p, l, s, r) == [op |-> "solve", p |-> p, l |-> l, s |-> s, r |-> r]
GetOf(r, what, n, d) == [op |-> "get", r |-> r, what |-> what, node |-> n, dof |-> d]
InterpOf(r, p, e, f) == [op |-> "interp", r |-> r, p |-> p, elem |-> e, fct |-> f, tol |-> "1e-12"]
SetBcOf(p, ds, ns) == [op |-> "setbc", p |-> p, dirichlet |-> ds, neumann |-> ns]
LayoutOp(p, l) == [op |-> "layout", p |-> p, l |-> l]
(* other numbers at the same places, other supports *)
Other(seq, v) == [i \in 1..Len(seq) |-> [seq[i] EXCEPT !.val = v]]
Calls ==
  CASE Menu = "loads" ->
       << AddOf("ab", WithId("h1", PointLoad("Uz", "1", "-4"))),      \* valid ones, the first also where it does not fit
          AddOf("cb", WithId("h1", PointLoad("Uz", "1", "-4"))),
          AddOf("ab", WithId("h2", LineLoad("Uz", "3"))),
          AddOf("ab", WithId("h3", WedgeLoad("Ux", "1", "-2"))),
          AddOf("cb", WithId("h3", WedgeLoad("Ux", "1", "-2"))),
          AddOf("ab", WithId("h4", PointLoad("Phiy", "4", "6"))),
          AddOf("ab", WithId("h6", PointLoad("Uz", "1", "-4"))),      \* equal to h1, but another load
          AddOf("ab", WithId("h5", PointLoad("Uz", "401/100", "2"))), \* beyond the end
          AddOf("ab", WithId("h7", LineLoad("Phiy", "1"))),           \* not supported
          AddOf("ab", WithId("h8", PointLoad("Uy", "1", "1"))),
          AddOf("ab", WithId("h9", PointLoad("Ux", "-1/10", "1"))),
          AddOf("ab", [id |-> "hf", type |-> "foreign", kind |-> "Uz", v0 |-> "1"]),
          [op |-> "rm", p |-> "P", elem |-> "ab", lid |-> "h1"],
          [op |-> "rm", p |-> "P", elem |-> "cb", lid |-> "h1"],
          [op |-> "rm", p |-> "P", elem |-> "ab", lid |-> "h3"],
          [op |-> "rm", p |-> "P", elem |-> "ab", lid |-> "h6"],
          [op |-> "rm", p |-> "P", elem |-> "ab", lid |-> "Pab1"],
          SolveOf("P", "LP", "S", "R") >>
    [] Menu = "reuse" ->
       << SolveOf("P", "LP", "S", "R1"), SolveOf("P", "LP", "S", "R2"), SolveOf("P", "LP", "T", "R1"),
          SolveOf("Q", "LQ", "S", "R1"), SolveOf("Q", "LQ", "S", "R2"), SolveOf("Q", "LQ", "T", "R3"),
          SolveOf("T", "LT", "S", "R1"), SolveOf("T", "LT", "S", "R3"),
          SolveOf("U", "LU", "S", "R1"), SolveOf("U", "LU", "T", "R2"),
          SolveOf("Q", "LP", "S", "R2"), SolveOf("P", "LQ", "S", "R3"), SolveOf("T", "LQ", "S", "R1"),
          [eq |-> "refusing"] @@ SolveOf("P", "LP", "S", "R1"), [eq |-> "gaussian"] @@ SolveOf("Q", "LQ", "S", "R3"),
          SetBcOf("P", Pool["P"].dirichlet, Other(Pool["P"].neumann, "9")),
          SetBcOf("P", Other(Pool["P"].dirichlet, "1/50"), Pool["P"].neumann),
          SetBcOf("P", Support("b", <<"Ux", "Uz", "Phiy">>) \o Support("c", <<"Uz">>), Pool["P"].neumann),
          SetBcOf("Q", Pool["Q"].dirichlet, Other(Pool["Q"].neumann, "-3")),
          LayoutOp("P", "LP"), LayoutOp("Q", "LP"),
          AddOf("ab", WithId("h2", LineLoad("Uz", "3"))), [op |-> "rm", p |-> "P", elem |-> "ab", lid |-> "Pab1"] >>
    [] OTHER ->
       [k \in 1..Len(PoolNames) |-> SolveOf(PoolNames[k], "LP", "S", IF k % 2 = 0 THEN "R1" ELSE "R2")]
       \o [k \in 1..Len(PoolNames) |-> SolveOf(PoolNames[k], StrCat("L", PoolNames[k]), "S", "R2")]
       \o << SolveOf("P", "LP", "S", "R1"), SolveOf("P", "LP", "T", "R2"),
             GetOf("R1", "primary", "b", "Ux"), GetOf("R1", "reaction", "a", "Uz"),
             GetOf("R1", "primary", "nowhere", "Ux"), GetOf("R1", "reaction", "a", "Uy"), GetOf("R2", "primary", "c", "Phiy"), GetOf("R2", "reaction", "", "Uz"),
             InterpOf("R1", "P", "ab", "My"), InterpOf("R1", "P", "ab", "Mx"), InterpOf("R1", "P", "nope", "My"), InterpOf("R2", "P", "", "Ux"), InterpOf("R2", "P", "cb", "Vz") >>

Fate(call) == \* effect on the state
  CASE call.op = "add" -> AddLoad(call.p, call.elem, call.load)
    [] call.op = "rm" -> RemoveLoad(call.p, call.elem, call.lid)
    [] call.op = "setbc" -> SetBc(call.p, call.dirichlet, call.neumann)
    [] call.op = "layout" -> MakeLayout(call.p, call.l)
    [] call.op = "solve" -> \E success \in (IF call.l \in DOMAIN lay /\ Outcome(call.p, call.l, "eq" \in DOMAIN call /\ call.eq = "refusing") = "any" THEN BOOLEAN ELSE {TRUE}) :
                              SolveProblem(call.p, call.l, call.r, "eq" \in DOMAIN call /\ call.eq = "refusing", success)
    [] OTHER -> NoEffect

-----------------------------------------------------------------------------
(* as scenarios *)
Prefix == [k \in 1..(2 * Len(PoolNames)) |->
             LET p == PoolNames[(k + 1) \div 2] IN
             IF k % 2 = 1 THEN [op |-> "mk", p |-> p, st |-> ForDriver(PoolOf(p))] ELSE LayoutOp(p, StrCat("L", p))]
Results == {"R", "R1", "R2", "R3"}
ReadAll(seq) == FlattenSeq([k \in 1..Len(seq) |-> <<[op |-> "all", r |-> seq[k]]>>])
(* the problem the last successful solve for r was made for *)
MadeFor(h, r) ==
  LET ks == {k \in 1..Len(h) : Calls[h[k]].op = "solve" /\ Calls[h[k]].r = r} IN
  IF ks = {} THEN "" ELSE Calls[h[CHOOSE k \in ks : \A m \in ks : m <= k]].p
RECURSIVE Ops(_, _)
Ops(h, k) ==
  IF k > Len(h) THEN <<>>
  ELSE LET used == SetToSeq({r \in Results : MadeFor(SubSeq(h, 1, k), r) # ""}) IN
       <<Calls[h[k]]>> \o (IF used # <<>> /\ Draw(SubSeq(h, 1, k), 5, 3) = 0 THEN <<[op |-> "all", r |-> used[Draw(SubSeq(h, 1, k), 6, Len(used)) + 1]]>> ELSE <<>>)
       \o Ops(h, k + 1)
Final(h) ==
  LET rs == SetToSeq({r \in Results : MadeFor(h, r) # ""}) IN
  FlattenSeq([k \in 1..Len(rs) |-> <<[op |-> "all", r |-> rs[k]],
     [op |-> "interpall", r |-> rs[k], p |-> MadeFor(h, rs[k]), elems |-> [i \in 1..Len(Pool[MadeFor(h, rs[k])].elems) |-> Pool[MadeFor(h, rs[k])].elems[i].id], tol |-> "1e-12"]>>])
Scenario(h) == Prefix \o Ops(h, 1) \o (IF Menu = "loads" THEN <<SolveOf("P", "LP", "S", "R")>> ELSE <<>>)
               \o (IF Menu = "loads" THEN <<[op |-> "all", r |-> "R"], [op |-> "interpall", r |-> "R", p |-> "P", elems |-> <<"ab", "cb">>, tol |-> "1e-12"]>> ELSE Final(h))
               \o [k \in 1..Len(PoolNames) |-> [op |-> "dump", p |-> PoolNames[k], kept |-> TRUE]]

Init == /\ c = <<>>
        /\ prob = [p \in DOMAIN Pool |-> PoolOf(p)]
        /\ lay = [l \in {StrCat("L", p) : p \in {q \in DOMAIN Pool : LayoutOk(Pool[q])}} |-> LayoutOf(Pool[CHOOSE q \in DOMAIN Pool : StrCat("L", q) = l])]
        /\ res = <<>>
Next == /\ Len(c) < Depth
        /\ \E k \in 1..Len(Calls) :
             /\ c' = Append(c, k)
             /\ Holds(Len(c') >= 2 => OneIn(c', Pick))
             /\ Fate(Calls[k])
             /\ IF Len(c') = Depth THEN Emit([ops |-> Scenario(c')]) ELSE TRUE
Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
(* The state in terms of the history *)
Made(k) == Calls[c[k]]
(* an element carries what was added, fits, and was not removed later *)
Carried(p, e) ==
  LET fits(k) == Made(k).op = "add" /\ Made(k).p = p /\ Made(k).elem = e /\ Accepts(Pool[p], e, Made(k).load)
      gone(k, id) == \E m \in 1..Len(c) : m > k /\ Made(m).op = "rm" /\ Made(m).p = p /\ Made(m).elem = e /\ Made(m).lid = id
      initial == SelectSeq(PoolOf(p).bag[e], LAMBDA l : ~gone(0, l.id))
      later == [k \in 1..Len(c) |-> IF fits(k) /\ ~gone(k, Made(k).load.id) THEN <<Made(k).load>> ELSE <<>>]
  IN initial \o FlattenSeq(later)
LoadsRight == \A p \in DOMAIN prob : \A e \in DOMAIN prob[p].bag : prob[p].bag[e] = Carried(p, e)
(* refused loads are nowhere *)
OnlyAccepted == \A p \in DOMAIN prob : \A e \in DOMAIN prob[p].bag : \A i \in 1..Len(prob[p].bag[e]) : Accepts(prob[p], e, prob[p].bag[e][i])
(* only boundary conditions and loads of the problem they were changed in differ from the pool *)
OthersUnchanged == \A p \in DOMAIN prob :
  /\ prob[p].elems = Pool[p].elems /\ prob[p].nodes = Pool[p].nodes /\ prob[p].links = Pool[p].links
  /\ (\A k \in 1..Len(c) : Made(k).op # "setbc" \/ Made(k).p # p) => prob[p].dirichlet = Pool[p].dirichlet /\ prob[p].neumann = Pool[p].neumann
(* every result is about its problem as it was solved: at one of the times of a call for this result *)
ResultsRight == \A r \in DOMAIN res :
  /\ MadeFor(c, r) # ""
  /\ res[r].st.elems = Pool[MadeFor(c, r)].elems
  /\ LayoutOk(res[r].st) /\ Stable(res[r].st) /\ Prescribed(res[r].st) # <<>>
(* results are not changed by calls that don't make them *)
Frozen == [][\A r \in DOMAIN res : (r \in DOMAIN res' /\ res'[r] = res[r]) \/ (Calls[c'[Len(c')]].op = "solve" /\ Calls[c'[Len(c')]].r = r)]_vars
(* queries and failures leave everything as it is *)
QueriesPure == [][Calls[c'[Len(c')]].op \in {"get", "interp", "all"} => UNCHANGED apivars]_vars
=============================================================================
