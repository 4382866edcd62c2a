-------------------------------- MODULE Api --------------------------------
(***************************************************************************)
(* The state machine: which calls change what.  Used by Trace (arguments   *)
(* are those of recorded calls) and by MC_Api (all calls in all orders).   *)
(*                                                                         *)
(* RecordOf(St, ordered) is what the specification remembers about a       *)
(* result: the full exact solution in Trace, the structure in MC_Api.      *)
(***************************************************************************)
EXTENDS Deflect

CONSTANT RecordOf(_, _)
VARIABLES prob, lay, res

apivars == <<prob, lay, res>>
Put(f, k, v) == (k :> v) @@ f
Drop(f, k) == [x \in DOMAIN f \ {k} |-> f[x]]

ApiInit == prob = <<>> /\ lay = <<>> /\ res = <<>>

(* A problem that could not be created does not exist afterwards *)
NoProblem == [none |-> TRUE]
MakeProblem(p, S) == /\ prob' = IF S = NoProblem THEN Drop(prob, p) ELSE Put(prob, p, S)
                     /\ UNCHANGED <<lay, res>>

(* Refused loads do not change anything *)
AddLoad(p, e, load) ==
  /\ prob' = IF Accepts(prob[p], e, load) THEN [prob EXCEPT ![p].bag = AddTo(@, e, load)] ELSE prob
  /\ UNCHANGED <<lay, res>>
RemoveLoad(p, e, lid) ==
  /\ prob' = [prob EXCEPT ![p].bag = RemoveFrom(@, e, lid)]
  /\ UNCHANGED <<lay, res>>

SetBc(p, dirichlet, neumann) ==
  /\ prob' = [prob EXCEPT ![p].dirichlet = dirichlet, ![p].neumann = neumann]
  /\ UNCHANGED <<lay, res>>

HasLayout(S) == ~IsBad(S) /\ LayoutOk(S)
MakeLayout(p, l) ==
  /\ lay' = IF HasLayout(prob[p]) THEN Put(lay, l, LayoutOf(prob[p])) ELSE Drop(lay, l)
  /\ UNCHANGED <<prob, res>>

Outcome(p, l, refusing) == IF refusing THEN "err" ELSE SolveOutcome(prob[p], lay[l])
(* success matters where the specification leaves the outcome open *)
SolveProblem(p, l, r, refusing, success) ==
  /\ res' = IF l \notin DOMAIN lay THEN Drop(res, r)
            ELSE LET out == Outcome(p, l, refusing) IN
                 IF out = "ok" \/ (out = "any" /\ success)
                 THEN Put(res, r, TLCEval(RecordOf(prob[p], lay[l].con = PrescribedSet(prob[p])))) ELSE Drop(res, r)
  /\ UNCHANGED <<prob, lay>>

(* Everything else changes nothing: queries, failing calls, parsing, other people's calls *)
NoEffect == UNCHANGED apivars
=============================================================================
