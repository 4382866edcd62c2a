------------------------------- MODULE Trace -------------------------------
(***************************************************************************)
(* Validates traces recorded from the implementation: every line of the    *)
(* file TRACES is one trace, a sequence of API calls with their replies.   *)
(* Each trace is one behaviour of this specification (one initial state    *)
(* per trace, so that TLC's workers share them).  A step binds the         *)
(* arguments of an action of Api to those of the recorded call, and prints *)
(* every clause of the specification that the recorded reply violates.     *)
(*                                                                         *)
(* Calls made concurrently are recorded as one call "par" with a sequence  *)
(* of calls per goroutine.  Goroutines create objects with distinct names  *)
(* only, so that in this specification all their interleavings have the    *)
(* same effects and replies; they are checked one after another.           *)
(***************************************************************************)
EXTENDS Api, Expectations, Sections, IOUtils, Json

Raw == ndJsonDeserialize(IOEnv.TRACES)
RelTol == IF "RELTOL" \in DOMAIN IOEnv THEN IOEnv.RELTOL ELSE "1e-7"
FullRecord(St, ordered) == ResultOf(St, ordered, RelTol)

RECURSIVE Concat(_)
Concat(ss) == IF ss = <<>> THEN <<>> ELSE Head(ss) \o Concat(Tail(ss))
RECURSIVE Sequential(_)
Sequential(ops) == IF ops = <<>> THEN <<>>
                   ELSE (IF Head(ops).op = "par" /\ "workers" \in DOMAIN Head(ops) THEN Concat(Head(ops).workers) \o <<[op |-> "joined", rep |-> Head(ops).rep]>>
                         ELSE <<Head(ops)>>) \o Sequential(Tail(ops))
Traces == TLCEval([t \in 1..Len(Raw) |-> [id |-> Raw[t].id, ops |-> TLCEval(Sequential(Raw[t].ops))]])

VARIABLES tr, l

vars == <<tr, l, prob, lay, res>>
Ops(t) == Traces[t].ops

Init == tr \in 1..Len(Raw) /\ l = 1 /\ ApiInit

Ev == Ops(tr)[l]
Rep == Ev.rep
Is(op) == Ev.op = op
Panicked == "panic" \in DOMAIN Rep

Report(clauses) ==
  IF Panicked THEN PrintT("FAIL " \o ToJson([id |-> Traces[tr].id, n |-> l, op |-> Ev.op, clause |-> "panic", what |-> ToString(Rep.panic)]))
  ELSE \A c \in clauses : IF c[2] THEN TRUE
         ELSE PrintT("FAIL " \o ToJson([id |-> Traces[tr].id, n |-> l, op |-> Ev.op, clause |-> c[1], what |-> ToString(c[3])]))

-----------------------------------------------------------------------------
(* Structures in the scenario: elements that are refused do not become part of the problem *)
RECURSIVE FoldAdds(_, _, _)
FoldAdds(St, loads, k) ==
  IF k > Len(loads) THEN St
  ELSE FoldAdds(IF Accepts(St, loads[k].elem, loads[k].load)
                THEN [St EXCEPT !.bag = AddTo(@, loads[k].elem, loads[k].load)] ELSE St, loads, k + 1)
MkStruct(st) ==
  LET es == SelectSeq(st.elems, LAMBDA e : ElemOk(st.nodes, e))
      base == [nodes |-> st.nodes, mats |-> st.mats, css |-> st.css, elems |-> es,
               dirichlet |-> st.dirichlet, neumann |-> st.neumann, links |-> st.links,
               bag |-> [id \in {es[i].id : i \in 1..Len(es)} |-> <<>>]]
  IN TLCEval(FoldAdds(base, SelectSeq(st.loads, LAMBDA x : x.elem \in DOMAIN base.bag), 1))
Mk == /\ Is("mk")
      /\ LET S == MkStruct(Ev.st) IN
         /\ MakeProblem(Ev.p, IF Panicked THEN NoProblem ELSE S)
         /\ Report({Cl("ctor", (Rep.ctor[k] = "") <=> ElemOk(Ev.st.nodes, Ev.st.elems[k]), <<Ev.st.elems[k], Rep.ctor[k]>>)
                      : k \in 1..Len(Ev.st.elems)}
                   \cup {Cl("add", Ev.st.loads[k].elem \in DOMAIN S.bag => (Rep.adds[k].ok <=> Accepts(S, Ev.st.loads[k].elem, Ev.st.loads[k].load)),
                            <<Ev.st.loads[k], Rep.adds[k]>>) : k \in 1..Len(Ev.st.loads)})

Parse == /\ Is("parse")
         /\ IF "text" \in DOMAIN Ev   \* not even JSON
            THEN /\ MakeProblem(Ev.p, IF Panicked \/ Rep.err # "" THEN NoProblem ELSE BadProblem)
                 /\ Report({Cl("parsebad", Rep.err # "", Rep)})
            ELSE /\ MakeProblem(Ev.p, IF Panicked THEN NoProblem ELSE TLCEval(AfterParsing(Ev.doc, Rep.err = "")))
                 /\ Report(ParseClauses(Ev.doc, Rep))
Dump == /\ Is("dump") /\ NoEffect
        /\ IF Ev.p \notin DOMAIN prob THEN TRUE
           ELSE IF IsBad(prob[Ev.p]) \/ "none" \in DOMAIN Rep THEN TRUE ELSE Report(DumpClauses(prob[Ev.p], Rep) \cup IF "kept" \in DOMAIN Ev THEN KeptClauses(prob[Ev.p], Rep) ELSE {})

NewElem == /\ Is("newelem") /\ NoEffect
           /\ Report({Cl("ctor", (Rep.err = "") <=> ElemOk(Ev.nodes, Ev), <<Ev, Rep>>)})

Add == /\ Is("add")
       /\ AddLoad(Ev.p, Ev.elem, Ev.load)
       /\ Report({Cl("add", Rep.ok <=> Accepts(prob[Ev.p], Ev.elem, Ev.load), <<Ev.load, Rep>>),
                  Cl("loadctor", (Rep.cerr = "") <=> LoadCreated(Ev.load), <<Ev.load, Rep>>)})
Rm == Is("rm") /\ RemoveLoad(Ev.p, Ev.elem, Ev.lid) /\ Report({})
Bc == Is("setbc") /\ SetBc(Ev.p, Ev.dirichlet, Ev.neumann) /\ Report({})

Names(msg, x) == StrContains(msg, x[1]) /\ StrContains(msg, x[2])
Known(p) == p \in DOMAIN prob
LayoutCall ==
  /\ Is("layout")
  /\ IF ~Known(Ev.p) THEN lay' = Drop(lay, Ev.l) /\ UNCHANGED <<prob, res>> /\ Report({})
     ELSE /\ MakeLayout(Ev.p, Ev.l)
          /\ LET S == prob[Ev.p] IN
             IF IsBad(S) THEN Report({})
             ELSE Report({Cl("layout", (Rep.err = "") <=> LayoutOk(S), <<Rep.err, Duplicates(S), Unconnected(S)>>)}
                         \cup {Cl("layoutmsg", Names(Rep.err, x), <<Rep.err, x>>) : x \in Duplicates(S) \cup Unconnected(S)})

SolveCall ==
  /\ Is("solve")
  /\ LET refusing == "eq" \in DOMAIN Ev /\ Ev.eq = "refusing"
         skipped == "skipped" \in DOMAIN Rep
         good == ~Panicked /\ ~skipped /\ Rep.err = ""
     IN IF ~Known(Ev.p) THEN res' = Drop(res, Ev.r) /\ UNCHANGED <<prob, lay>> /\ Report({})
        ELSE IF IsBad(prob[Ev.p]) THEN /\ res' = Drop(res, Ev.r) /\ UNCHANGED <<prob, lay>>
                                       /\ Report({Cl("badsolved", ~good, Rep)})
        ELSE /\ SolveProblem(Ev.p, Ev.l, Ev.r, refusing, good)
             /\ LET out == IF Ev.l \in DOMAIN lay THEN Outcome(Ev.p, Ev.l, refusing) ELSE "none" IN
                Report({Cl("solveok", (out = "ok" /\ ~skipped) => good, Rep), Cl("solveerr", out = "err" => ~good, Rep), Cl("unstable", out = "unstable" => ~good, Rep)})

(* queries of a result the implementation or the specification does not have are void *)
Void == Ev.r \notin DOMAIN res \/ "none" \in DOMAIN Rep
Query(op, clauses) == Is(op) /\ NoEffect /\ IF Void THEN TRUE ELSE Report(clauses)
SameLoads == "p" \in DOMAIN Ev => SameBag(prob[Ev.p].bag, res[Ev.r].st.bag)
All == Query("all", AllClauses(res[Ev.r], Rep))
Get == Query("get", GetClauses(res[Ev.r], Ev.what, <<Ev.node, Ev.dof>>, Rep))
Interp == Query("interp", InterpClauses(res[Ev.r], Ev.elem, Ev.fct, RParse(Ev.tol), Rep, SameLoads))
InterpAll == Query("interpall", InterpAllClauses(res[Ev.r], ToSet(Ev.elems), RParse(Ev.tol), Rep, SameLoads))

Pure(op, clauses) == Is(op) /\ NoEffect /\ Report(clauses)
PolyEval == Pure("eval", EvalClauses(Ev.p, Num(Ev.x), Rep))
PolyTrim == Pure("trim", TrimClauses(Ev.ps, Num(Ev.tol), Rep))
PolyCompact == Pure("compact", CompactClauses(Ev.ps, Num(Ev.tol), Rep))
PolyInterval == Pure("interval", IntervalClauses(Ev.ps, Num(Ev.x0), Num(Ev.xe), Rep))
Section1 == Pure("cs", CsClauses([kind |-> Ev.kind, par |-> Ev.par], Rep))
Expect == Pure("expect", ExpectClauses(Ev.doc, Ev.result, Rep))
Joined1 == Pure("joined", {})

(* what the harness observed outside of any call: crashes, hangs, data races *)
Monitor == /\ Is("monitor") /\ NoEffect
           /\ Report({Cl(Ev.what, FALSE, Ev.text)})

Next == /\ l <= Len(Ops(tr))
        /\ \/ Mk \/ Parse \/ Dump \/ NewElem \/ Add \/ Rm \/ Bc \/ LayoutCall \/ SolveCall
           \/ All \/ Get \/ Interp \/ InterpAll
           \/ PolyEval \/ PolyTrim \/ PolyCompact \/ PolyInterval \/ Section1 \/ Expect \/ Joined1 \/ Monitor
        /\ l' = l + 1
        /\ UNCHANGED tr
        /\ IF l = Len(Ops(tr)) THEN PrintT("DONE " \o Traces[tr].id) ELSE TRUE
Spec == Init /\ [][Next]_vars
View == <<tr, l>>
=============================================================================
