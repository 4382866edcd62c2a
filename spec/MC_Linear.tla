------------------------------ MODULE MC_Linear ------------------------------
(***************************************************************************)
(* Load cases of one structure one after another: the structures of        *)
(* MC_Frame, each of which gets its four load cases (the last one being    *)
(* the sum of the others) and multiples of them, in an order that depends  *)
(* on the seed, by changing loads and boundary values between solving.     *)
(*                                                                         *)
(* Checked: superposition, reciprocity (in MC_Frame) and homogeneity.      *)
(* Emitted: the history of one structure.                                  *)
(***************************************************************************)
EXTENDS MC_Frame

Multiples == <<"0", "1000000", "-1", "1e-6", "7", "-1e-9", "1e9", "1/3">>
Times(St, f) ==
  LET t(v) == RText(RMul(RParse(v), RParse(f))) IN
  TLCEval([St EXCEPT !.neumann = [i \in 1..Len(@) |-> [@[i] EXCEPT !.val = t(@)]],
             !.dirichlet = [i \in 1..Len(@) |-> [@[i] EXCEPT !.val = t(@)]],
             !.bag = [e \in DOMAIN @ |-> [i \in 1..Len(@[e]) |->
                        IF @[e][i].type = "linear" THEN [@[e][i] EXCEPT !.v0 = t(@), !.v1 = t(@)] ELSE [@[e][i] EXCEPT !.v0 = t(@)]]]])
(* load cases of a history: case and multiple; all four unchanged, and four multiples *)
Steps(s) ==
  LET k0 == Draw(s, 90, 24) plain == [k \in 1..4 |-> <<((k + k0) % 4) + 1, "1">>]
      more == [k \in 1..4 |-> <<Draw(s, 90 + k, 4) + 1, Multiples[Draw(s, 95 + k, Len(Multiples)) + 1]>>]
  IN <<plain[1], more[1], plain[2], more[2], more[3], plain[3], plain[4], more[4]>>
Sit(s, step) == IF step[2] = "1" THEN Case(s, step[1]) ELSE Times(Case(s, step[1]), step[2])
StepOps(s, k) ==
  LET step == Steps(s)[k] St == Sit(s, step) r == StrCat("R", ToString(k))
      loads(S, tag) == FlattenSeq([i \in 1..Len(S.elems) |-> [j \in 1..Len(S.bag[S.elems[i].id]) |->
                         [elem |-> S.elems[i].id, load |-> [S.bag[S.elems[i].id][j] EXCEPT !.id = StrCat(tag, @)]]]])
      now == loads(St, StrCat("s", ToString(k)))
  IN [i \in 1..Len(now) |-> [op |-> "add", p |-> "P", elem |-> now[i].elem, load |-> now[i].load]]
     \o << [op |-> "setbc", p |-> "P", dirichlet |-> St.dirichlet, neumann |-> St.neumann],
           [op |-> "solve", p |-> "P", l |-> "L", r |-> r, s |-> IF k % 3 = 0 THEN "T" ELSE "S"], [op |-> "all", r |-> r],
           [op |-> "interpall", r |-> r, p |-> "P", elems |-> [i \in 1..Len(St.elems) |-> St.elems[i].id], tol |-> "1e-12"] >>
     \o [i \in 1..Len(now) |-> [op |-> "rm", p |-> "P", elem |-> now[i].elem, lid |-> now[i].load.id]]
History(s) ==
  <<[op |-> "mk", p |-> "P", st |-> ForDriver(Bare(s))], [op |-> "layout", p |-> "P", l |-> "L"]>>
  \o FlattenSeq([k \in 1..Len(Steps(s)) |-> StepOps(s, k)])
  \* the first results are what they were
  \o <<[op |-> "all", r |-> "R1"], [op |-> "all", r |-> "R4"]>>

LinearNext == \E k \in 1..(IF Len(c) < 2 THEN Options(c) ELSE 0) :
  /\ c' = Append(c, k)
  /\ Holds(Len(c') = 2 => Worth(c') /\ Stable(Bare(c')))
  /\ IF Len(c') = 2 THEN Emit([ops |-> History(c')]) ELSE TRUE

(* a multiple of all causes has the multiple of all effects *)
Homogeneous(sol, sol2, f) ==
  LET x == RParse(f) IN
  /\ \A y \in DOMAIN sol.d : sol2.d[y] = RMul(x, sol.d[y]) /\ sol2.r[y] = RMul(x, sol.r[y])
  /\ \A k \in 1..Len(sol.el) : \A n \in DOMAIN sol.el[k].fn : \A i \in 1..Len(sol.el[k].fn[n]) :
        LET p == sol.el[k].fn[n][i].p q == sol2.el[k].fn[n][i].p IN PAdd(q, PScale(RNeg(x), p)) \in {<<>>} \cup {[j \in 1..m |-> R0] : m \in 1..9}
LinearTheorems ==
  /\ Theorems
  /\ Len(c) = 2 =>
       LET sols == TLCEval([k \in 1..Cases |-> SolveStructure(Case(c, k))]) IN
       \A k \in 1..Len(Steps(c)) : Steps(c)[k][2] # "1" =>
         LET step == Steps(c)[k] sol2 == SolveStructure(Sit(c, step)) IN sol2.ok /\ Homogeneous(sols[step[1]], sol2, step[2])
LinearSpec == Init /\ [][LinearNext]_c
=============================================================================
