------------------------------- MODULE MC_Par -------------------------------
(***************************************************************************)
(* Goroutines that share problems, layouts, elements, loads and inclined   *)
(* supports, none of which they modify.  A behaviour chooses a program per *)
(* goroutine, and then interleaves their calls in every possible way.      *)
(*                                                                         *)
(* Checked: each goroutine gets the replies it would get alone, in every   *)
(* interleaving, and the state depends only on how far each of them is     *)
(* (so that Trace may check them one after another).                       *)
(* Emitted: the programs, to be run concurrently under the race detector,  *)
(* and to be checked against the replies of the specification.             *)
(***************************************************************************)
EXTENDS MC_Api, Documents
VARIABLES pc,     \* number of calls made, per goroutine
          out     \* replies they got
pvars == <<c, pc, out, prob, lay, res>>

Workers == EnvNat("WORKERS", 2)
W == 1..Workers
Mine(w, x) == StrCat(StrCat("W", ToString(w)), x)
Own(w, p) == Named(Mine(w, ""), Pool[p])
InterpAllOf(r, p, q) == [op |-> "interpall", r |-> r, p |-> p, elems |-> MapSeq(Pool[q].elems, LAMBDA e : e.id), tol |-> "1e-12"]
AllOf1(r) == [op |-> "all", r |-> r]
Rd(w, p) == <<AllOf1(Mine(w, "R")), InterpAllOf(Mine(w, "R"), p, p)>>
RdOwn(w, p) == <<AllOf1(Mine(w, "R")), InterpAllOf(Mine(w, "R"), Mine(w, "P"), p)>>
Slv(w, p, l) == SolveOf(p, l, Mine(w, "S"), Mine(w, "R"))
MkOwn(w, p) == <<[op |-> "mk", p |-> Mine(w, "P"), st |-> ForDriver(Own(w, p)), of |-> p],
                 LayoutOp(Mine(w, "P"), Mine(w, "L")), Slv(w, Mine(w, "P"), Mine(w, "L"))>>
ParseOwn(w, p) == <<[op |-> "parse", p |-> Mine(w, "P"), doc |-> DocOf(Trim(Decimals(Own(w, p))), Styles[1]), of |-> p],
                    LayoutOp(Mine(w, "P"), Mine(w, "L")), Slv(w, Mine(w, "P"), Mine(w, "L"))>>
Programs == 16
Program(w, k) ==
  CASE k = 1 -> <<Slv(w, "P", "LP")>> \o Rd(w, "P")
    [] k = 2 -> <<Slv(w, "Q", "LQ")>> \o Rd(w, "Q")
    [] k = 3 -> <<Slv(w, "T", "LT"), GetOf(Mine(w, "R"), "primary", "b", "Ux"), GetOf(Mine(w, "R"), "reaction", "c", "Phiy")>> \o Rd(w, "T")
    [] k = 4 -> <<Slv(w, "U", "LU"), Slv(w, "P", "LP")>> \o Rd(w, "P")
    [] k = 5 -> <<LayoutOp("Q", Mine(w, "L")), Slv(w, "Q", Mine(w, "L"))>> \o Rd(w, "Q")
    [] k = 6 -> <<LayoutOp("T", Mine(w, "L")), Slv(w, "T", Mine(w, "L")), GetOf(Mine(w, "R"), "reaction", "nowhere", "Ux")>> \o Rd(w, "T")
    [] k = 7 -> MkOwn(w, "Q") \o RdOwn(w, "Q")
    [] k = 8 -> MkOwn(w, "T") \o RdOwn(w, "T")
    [] k = 9 -> ParseOwn(w, "P") \o RdOwn(w, "P")
    [] k = 10 -> ParseOwn(w, "Q") \o RdOwn(w, "Q")
    [] k = 11 -> <<[eq |-> "refusing"] @@ Slv(w, "Q", "LQ"), Slv(w, "Q", "LQ")>> \o Rd(w, "Q")
    [] k = 12 -> <<[eq |-> "gaussian"] @@ Slv(w, "P", "LP")>> \o Rd(w, "P")
    [] k = 13 -> <<Slv(w, "Q", "LQ"), InterpOf(Mine(w, "R"), "Q", "ab", "My"), InterpOf(Mine(w, "R"), "Q", "ab", "Uz"), InterpOf(Mine(w, "R"), "Q", "nope", "Uz"), InterpOf(Mine(w, "R"), "Q", "cb", "Nx")>>
    [] k = 14 -> <<Slv(w, "T", "LT")>> \o Rd(w, "T") \o <<Slv(w, "Q", "LQ")>> \o Rd(w, "Q")
    [] k = 15 -> ParseOwn(w, "T") \o RdOwn(w, "T") \o <<Slv(w, "T", "LT")>> \o Rd(w, "T")
    [] k = 16 -> <<LayoutOp("P", Mine(w, "L")), Slv(w, "P", Mine(w, "L")), Slv(w, "Q", "LQ")>> \o Rd(w, "Q")

(* of: the problem in the pool that a goroutine's own problem equals *)
Source(call) == call.of
Reply(call) ==
  CASE call.op = "solve" -> IF call.l \notin DOMAIN lay THEN "none" ELSE Outcome(call.p, call.l, "eq" \in DOMAIN call /\ call.eq = "refusing")
    [] call.op \in {"all", "get", "interp", "interpall"} -> IF call.r \in DOMAIN res THEN "result" ELSE "no result"
    [] OTHER -> ""
What(call) == IF call.op \in {"all", "get", "interp", "interpall"} /\ call.r \in DOMAIN res THEN res[call.r].st ELSE <<>>
ParFate(w, call) == CASE call.op \in {"mk", "parse"} -> MakeProblem(call.p, IF call.op = "mk" THEN Own(w, call.of) ELSE Trim(Decimals(Own(w, call.of)))) [] OTHER -> Fate(call)

Shared == <<[op |-> "par", workers |-> <<>>]>>
Clean(call) == IF "of" \in DOMAIN call THEN [x \in DOMAIN call \ {"of"} |-> call[x]] ELSE call
ParScenario(s) ==
  Prefix \o <<[SolveOf("Q", "LQ", "S", "Z") EXCEPT !.s = "S"], [op |-> "par", workers |-> [w \in W |-> MapSeq(Program(w, s[w]), Clean)]],
              AllOf1("Z"), InterpAllOf("Z", "Q", "Q"), SolveOf("T", "LT", "S", "Z"), AllOf1("Z"), InterpAllOf("Z", "T", "T")>>

ParInit == Init /\ pc = [w \in W |-> 0] /\ out = [w \in W |-> <<>>]
Choose1 == \E k \in 1..Programs :
  /\ Len(c) < Workers
  /\ Holds(Len(c) = 0 \/ k >= c[Len(c)])        \* goroutines are interchangeable
  /\ c' = Append(c, k)
  /\ Holds(Len(c') = Workers => OneIn(c', Pick))
  /\ UNCHANGED <<pc, out, prob, lay, res>>
  /\ IF Len(c') = Workers THEN Emit([ops |-> ParScenario(c')]) ELSE TRUE
Call(w) == LET program == Program(w, c[w]) IN
  /\ Len(c) = Workers /\ pc[w] < Len(program)
  /\ pc' = [pc EXCEPT ![w] = @ + 1]
  /\ out' = [out EXCEPT ![w] = Append(@, <<Reply(program[pc[w] + 1]), What(program[pc[w] + 1])>>)]
  /\ ParFate(w, program[pc[w] + 1])
  /\ UNCHANGED c
ParNext == Choose1 \/ \E w \in W : Call(w)
ParSpec == ParInit /\ [][ParNext]_pvars

-----------------------------------------------------------------------------
(* what a goroutine gets alone follows from its program and the pool *)
Origin(w, p) == LET mk == SelectSeq(Program(w, c[w]), LAMBDA x : "of" \in DOMAIN x /\ x.p = p) IN
                IF mk = <<>> THEN PoolOf(p) ELSE IF mk[1].op = "mk" THEN Own(w, mk[1].of) ELSE Trim(Decimals(Own(w, mk[1].of)))
AloneReply(w, k) ==
  LET program == Program(w, c[w]) call == program[k]
      solved(m) == LET x == program[m] IN IF "eq" \in DOMAIN x /\ x.eq = "refusing" THEN "err" ELSE IF x.p = "U" THEN "unstable" ELSE "ok"
      before == {m \in 1..(k - 1) : program[m].op = "solve" /\ program[m].r = call.r}
      last == CHOOSE m \in before : \A n \in before : n <= m
  IN CASE call.op = "solve" -> <<solved(k), <<>>>>
       [] call.op \in {"mk", "parse", "layout"} -> <<"", <<>>>>
       [] before = {} \/ solved(last) # "ok" -> <<"no result", <<>>>>
       [] OTHER -> <<"result", Origin(w, program[last].p)>>
AsAlone == Len(c) = Workers => \A w \in W : \A k \in 1..pc[w] :
  IF out[w][k] = AloneReply(w, k) THEN TRUE ELSE PrintT(<<"BROKEN", c, w, k, out[w][k][1], AloneReply(w, k)[1]>>) /\ FALSE
(* nothing but what they create themselves changes *)
PoolUnchanged == /\ \A p \in DOMAIN Pool : prob[p] = PoolOf(p)
                 /\ \A l \in {StrCat("L", p) : p \in DOMAIN Pool} : l \in DOMAIN lay => lay[l] = LayoutOf(Pool[CHOOSE q \in DOMAIN Pool : StrCat("L", q) = l])
=============================================================================
