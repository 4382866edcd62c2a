---------------------------- MODULE Expectations ----------------------------
(***************************************************************************)
(* Expectations of the integration tests: when is a description refused,   *)
(* and which of the four assertions must fail for a given result?          *)
(*                                                                         *)
(* The result is given as data: [primary, reaction : sequences of          *)
(* [node, dof, val]; interp : sequence of [elem, fct, ps]; failure : text  *)
(* ("" for success)].  Verdicts are "pass", "fail", or "open" for          *)
(* deviations at the very edge of a tolerance.                             *)
(***************************************************************************)
EXTENDS JsonInput, PolySeq

ValueNames == [Fx |-> "Ux", Fz |-> "Uz", Fy |-> "Uy", My |-> "Phiy", Mz |-> "Phiz", Mx |-> "Phix",
               Ux |-> "Ux", Uz |-> "Uz", Uy |-> "Uy", Phiy |-> "Phiy", Phiz |-> "Phiz", Phix |-> "Phix"]
IsFct(f) == \E i \in 1..12 : FctNames[i] = f

IntTexts == {"0", "1", "2", "3", "4", "5", "6", "7", "-1"}
InterpShape(v) ==
  /\ v.t = "obj" /\ KnownKeys(v, {"kind", "degree", "range", "boundary", "eval"})
  /\ Field(v, "kind", IsStrV)
  /\ Field(v, "degree", LAMBDA d : IsNumV(d) /\ d.s \in IntTexts)
  /\ Field(v, "range", NumArr) /\ Field(v, "boundary", NumArr)
  /\ Field(v, "eval", LAMBDA e : ArrOf(e, NumArr))
ExpShape(x) ==
  /\ x.t = "obj" /\ KnownKeys(x, {"tolerance", "primary", "reaction", "interpolation", "failure"})
  /\ Field(x, "tolerance", LAMBDA t : NumObj(t) /\ KnownKeys(t, {"primary", "reaction", "polynomial"}))
  /\ Field(x, "primary", LAMBDA p : ListsOf(p, NumObj))
  /\ Field(x, "reaction", LAMBDA p : ListsOf(p, NumObj))
  /\ Field(x, "interpolation", LAMBDA p : ListsOf(p, InterpShape))
  /\ Field(x, "failure", IsStrV)
BadPatterns == {"(", "[", "*", "a(b", "[z-a]", "+", "a**", "a{2,1}", "\\"}
InterpOk(v) == /\ IsFct(Text(v, "kind"))
               /\ Len(Arr(v, "range")) \in {0, 2}
               /\ Len(Arr(v, "boundary")) <= 2
               /\ \A i \in 1..Len(Arr(v, "eval")) : Len(Arr(v, "eval")[i].a) = 2
ExpOk(x) ==
  /\ Text(x, "failure") \notin BadPatterns
  /\ \A s \in {"primary", "reaction"} : \A i \in 1..Len(Flat(x, s)) : Keys(Flat(x, s)[i].v) \subseteq DOMAIN ValueNames
  /\ \A i \in 1..Len(Flat(x, "interpolation")) : InterpOk(Flat(x, "interpolation")[i].v)
Refused(doc) == ~(Has(doc, "expected") /\ ExpShape(At(doc, "expected")) /\ ExpOk(At(doc, "expected")))

-----------------------------------------------------------------------------
Tolerance(x, which) == IF Has(x, "tolerance") /\ Has(At(x, "tolerance"), which) THEN RParse(At(At(x, "tolerance"), which).s) ELSE RParse("1e-8")
(* |a - b| within an absolute or a relative tolerance *)
Verdict(text, want, absTol, relTol) ==
  IF ~RIsNum(text) THEN "fail"
  ELSE LET a == RParse(text)
           d == RAbs(RSub(a, want))
           lim == RMax(absTol, RMul(relTol, RMax(RAbs(a), RAbs(want))))
           fuzz == RParse("1.0001")
       IN IF RLe(RMul(d, fuzz), lim) THEN "pass" ELSE IF RLt(RMul(lim, fuzz), d) THEN "fail" ELSE "open"
AllOf(vs) == IF "fail" \in vs THEN "fail" ELSE IF "open" \in vs THEN "open" ELSE "pass"

ValueVerdict(list, at, dof, want, tol) ==
  LET F == SelectSeq(list, LAMBDA y : y.node = at /\ y.dof = dof) IN
  IF F = <<>> THEN "fail" ELSE Verdict(F[1].val, want, RParse("1e-8"), tol)
NodalVerdict(x, which, list) ==
  LET ps == FlatPairs(Flat(x, which), 1) IN
  AllOf({ValueVerdict(list, ps[i].at, ValueNames[ps[i].n], RParse(ps[i].s), Tolerance(x, which)) : i \in 1..Len(ps)})

(* a sample or boundary value of a piece *)
SampleVerdict(p, xx, want, tol) ==
  IF OutOfDomain(p, xx) THEN "fail" ELSE IF ~InDomain(p, xx) THEN "open"
  ELSE LET y == PEval(NC(p), xx)
           d == RAbs(RSub(y, want))
           lim == RMax(tol, RMul(tol, RMax(RAbs(y), RAbs(want))))
           noise == RMul(RParse("1e-12"), RAdd(AbsEval(NC(p), xx), RAbs(want)))
           fuzz == RParse("1.0001")
       IN IF RLe(RAdd(RMul(d, fuzz), noise), lim) THEN "pass"
          ELSE IF RLt(lim, R0) THEN IF RLt(noise, d) THEN "fail" ELSE "open"
          ELSE IF RLt(RAdd(RMul(lim, fuzz), noise), d) THEN "fail" ELSE "open"
PieceVerdict(v, p, tol) ==
  LET bs == Arr(v, "boundary") es == Arr(v, "eval")
      samples == {<<RParse(es[i].a[1].s), RParse(es[i].a[2].s)>> : i \in 1..Len(es)}
                 \cup (IF Len(bs) >= 1 THEN {<<Num(p.x0), RParse(bs[1].s)>>} ELSE {})
                 \cup (IF Len(bs) = 2 THEN {<<Num(p.xe), RParse(bs[2].s)>>} ELSE {})
      degree == IF Has(v, "degree") THEN At(v, "degree").s ELSE "0"
  IN AllOf({IF degree = ToString(Len(p.c) - 1) THEN "pass" ELSE "fail"} \cup {SampleVerdict(p, s[1], s[2], tol) : s \in samples})
InterpVerdict(x, at, v, list) ==
  LET F == SelectSeq(list, LAMBDA y : y.elem = at /\ y.fct = Text(v, "kind"))
      r == Arr(v, "range")
  IN IF F = <<>> THEN "fail"
     ELSE LET ps == F[1].ps tol == Tolerance(x, "polynomial") IN
          IF Len(r) = 0 THEN IF Len(ps) # 1 THEN "fail" ELSE PieceVerdict(v, ps[1], tol)
          ELSE LET a == RParse(r[1].s) b == RParse(r[2].s)
                   sure == {k \in 1..Len(ps) : Sure(ps[k], a, b)}
                   poss == {k \in 1..Len(ps) : Poss(ps[k], a, b)}
               IN IF poss = {} THEN "fail" ELSE IF sure # poss THEN "open"
                  ELSE PieceVerdict(v, ps[CHOOSE k \in sure : \A m \in sure : k <= m], tol)
InterpolationVerdict(x, list) ==
  AllOf({InterpVerdict(x, Flat(x, "interpolation")[i].at, Flat(x, "interpolation")[i].v, list) : i \in 1..Len(Flat(x, "interpolation"))})

(* patterns may match the message or its lower case version *)
FailureVerdict(x, failure) ==
  IF ~Has(x, "failure") THEN IF failure = "" THEN "pass" ELSE "fail"
  ELSE IF failure = "" THEN "fail"
  ELSE IF StrMatches(failure, Text(x, "failure")) \/ StrMatches(StrLower(failure), Text(x, "failure")) THEN "pass" ELSE "fail"

(* null, names given twice or in other case: nothing is documented *)
ExpNames == {"expected", "tolerance", "primary", "reaction", "interpolation", "failure", "polynomial", "kind", "degree", "range", "boundary", "eval"}
RECURSIVE ExpOtherCase(_)
ExpOtherCase(v) == CASE v.t = "obj" -> \E i \in 1..Len(v.k) : (v.k[i].n \notin ExpNames /\ StrLower(v.k[i].n) \in ExpNames) \/ ExpOtherCase(v.k[i].v)
                     [] v.t = "arr" -> \E i \in 1..Len(v.a) : ExpOtherCase(v.a[i])
                     [] OTHER -> FALSE
Unclear(doc) == AnyNull(doc) \/ ~AllUnique(doc) \/ ExpOtherCase(doc)

Agrees(name, failed, verdict, tag) == Cl(name, verdict = "open" \/ (failed <=> verdict = "fail"), <<verdict, tag>>)
ExpectClauses(doc, result, rep) ==
  IF Unclear(doc) THEN {} ELSE
  {Cl("exprefused", (rep.perr # "") <=> Refused(doc), rep)}
  \cup IF rep.perr # "" \/ Refused(doc) THEN {}
       ELSE LET x == At(doc, "expected") IN
            {Agrees("expprimary", rep.primary, NodalVerdict(x, "primary", result.primary), rep),
             Agrees("expreaction", rep.reaction, NodalVerdict(x, "reaction", result.reaction), rep),
             Agrees("expinterp", rep.interp, InterpolationVerdict(x, result.interp), rep),
             Agrees("expfailure", rep.failure, FailureVerdict(x, result.failure), rep)}
=============================================================================
