------------------------------ MODULE MC_Expect ------------------------------
(***************************************************************************)
(* Expectations of integration tests and results that match, nearly match, *)
(* or miss them.  There are a few results with descriptions that expect    *)
(* exactly them.  A behaviour chooses a result, and                        *)
(*   - tolerances, a number in the description, and its deviation in terms *)
(*     of the tolerance, optionally two numbers (TWICE), or                *)
(*   - a place in the description, and a change (see Edits), or            *)
(*   - a member of a list, of which there is a copy, and a deviation of a  *)
(*     number in the copy or in the original: one that is met must not     *)
(*     hide the other.                                                     *)
(* Emitted: for each number all deviations, for each place all changes.    *)
(***************************************************************************)
EXTENDS Edits, Expectations
VARIABLE c

Pick == EnvNat("PICK", 1)
EditPick == EnvNat("EDITPICK", 1)
Val(n, d, v) == [node |-> n, dof |-> d, val |-> v]
P3(a, b, cs) == [x0 |-> a, xe |-> b, c |-> cs]
Fct(e, f, ps) == [elem |-> e, fct |-> f, ps |-> ps]
GivenResults == <<
  [primary |-> <<Val("A", "Ux", "1.5"), Val("A", "Uz", "0"), Val("B", "Phiy", "-0.002"), Val("B", "Ux", "1e-9")>>,
   reaction |-> <<Val("A", "Ux", "-1000"), Val("A", "Phiy", "4"), Val("B", "Ux", "0")>>,
   interp |-> <<Fct("AB", "My", <<P3("0", "2", <<"1", "2">>), P3("2", "5", <<"5", "0", "1">>)>>), Fct("AB", "Nx", <<P3("0", "5", <<"-3">>)>>)>>, failure |-> ""],
  [primary |-> <<Val("n1", "Uy", "-7"), Val("n1", "Phix", "3e-5")>>, reaction |-> <<>>,
   interp |-> <<Fct("e", "Uz", <<P3("0", "1", <<"0", "1", "0", "-2">>), P3("1", "1.5", <<"-1">>), P3("1.5", "4", <<"-1", "0.25">>)>>), Fct("f", "Phiy", <<>>)>>, failure |-> "Singular matrix: 3"],
  [primary |-> <<>>, reaction |-> <<Val("A", "Uz", "12.5"), Val("A", "Phix", "-1e-7"), Val("C", "Phiz", "2")>>,
   interp |-> <<Fct("AC", "Vz", <<P3("0", "3", <<"0">>)>>), Fct("AC", "Ux", <<P3("0", "1", <<"1e-7", "1e-8">>), P3("1", "3", <<"2", "-0.5">>)>>)>>, failure |-> ""] >>
Given(i) == GivenResults[i]

(* the description that expects exactly this *)
ForceNames == [Ux |-> "Fx", Uz |-> "Fz", Uy |-> "Fy", Phiy |-> "My", Phiz |-> "Mz", Phix |-> "Mx"]
Same1(d) == d
ForceName(d) == ForceNames[d]
NodalDoc(vs, name(_), split) ==
  JObj(MapSeq(Grouped(MapSeq(vs, LAMBDA v : [at |-> v.node, n |-> name(v.dof), v |-> JNum(v.val)]), split), LAMBDA g : KV(g.at, JArr(g.os))))
ValueAt(p, x) == JNum(RDecimal(RText(PEval(NC(p), x))))
PieceDoc(f, p, alone) ==
  LET a == Num(p.x0) b == Num(p.xe) m == RDiv(RAdd(a, b), 2) IN
  JObj(<<KV("kind", JStr(f)), KV("degree", JNum(ToString(Len(p.c) - 1)))>>
       \o (IF alone THEN <<>> ELSE <<KV("range", JArr(<<JNum(p.x0), JNum(p.xe)>>))>>)
       \o <<KV("boundary", JArr(<<ValueAt(p, a), ValueAt(p, b)>>)), KV("eval", JArr(<<JArr(<<JNum(RDecimal(RText(m))), ValueAt(p, m)>>)>>))>>)
InterpDoc(fs) ==
  LET shown == SelectSeq(fs, LAMBDA f : f.ps # <<>>)
      es == SetToSeq({shown[i].elem : i \in 1..Len(shown)})
  IN JObj(MapSeq(es, LAMBDA e : KV(e, JArr(FlattenSeq(MapSeq(SelectSeq(shown, LAMBDA f : f.elem = e),
                                                             LAMBDA f : MapSeq(f.ps, LAMBDA p : PieceDoc(f.fct, p, Len(f.ps) = 1))))))))
(* tolerances of nodal displacements, reactions, and polynomials *)
Tolerances == << <<"", "", "">>, <<"1e-3", "0.1", "1e-6">>, <<"0.1", "1e-6", "1e-3">>, <<"0", "0", "0">>, <<"1e-10", "0.5", "0.1">>, <<"1e-8", "1e-3", "1e-8">> >>
TolDoc(t) == LET names == <<"primary", "reaction", "polynomial">> ks == SelectSeq(<<1, 2, 3>>, LAMBDA k : t[k] # "") IN
             JObj(MapSeq(ks, LAMBDA k : KV(names[k], JNum(t[k]))))
ExpDoc(i, t) ==
  LET R == Given(i) IN
  JObj(<<KV("name", JStr("x")),
         KV("expected", JObj((IF TolDoc(t).k = <<>> THEN <<>> ELSE <<KV("tolerance", TolDoc(t))>>)
           \o <<KV("primary", NodalDoc(R.primary, Same1, i = 2)), KV("reaction", NodalDoc(R.reaction, ForceName, i = 3)),
                KV("interpolation", InterpDoc(R.interp))>>
           \o (IF R.failure = "" THEN <<>> ELSE <<KV("failure", JStr("^Singular"))>>)))>>)

ExpNumbers == <<"0", "1", "-1", "2", "1e-3", "1e3", "0.5", "1e400">>
ExpTexts == <<"", "Nx", "My", "Mx", "Vy", "Q", "nx", "Ux", "Fx", "(", "[", "*", "a(b", "[z-a]", "+", "a**", "a{2,1}", "Singular", "singular", "SINGULAR", "^Sing.*3$", "^matrix", "matrix$",
              "[0-9]", "[4-9]", "x|matrix", "Sing(ular)? matrix", "\\", "m.trix", "\\.">>
ExpMembers(n) == <<StrCat(n, "x"), "", StrLower(n), "primary", "reaction", "interpolation", "tolerance", "failure", "polynomial", "kind", "range", "boundary", "eval", "A", "B", "AB", "e",
                   "Ux", "Fz", "Phiy", "My", "qx", "ux", "Nx", "expect">>

-----------------------------------------------------------------------------
(* places of the numbers that are compared *)
IsSlot(doc, path) == LET v == Find(doc, path) IN
  v.t = "num" /\ path[1] = 2 /\ LET sec == Find(doc, SubSeq(path, 1, 1)).k[path[2]].n IN
                 sec \in {"primary", "reaction"} \/ (sec = "interpolation" /\ Len(path) >= 6)
Paths(doc) == TLCEval(Places2(doc, <<>>))
Slots(doc) == TLCEval(SelectSeq(Paths(doc), LAMBDA p : IsSlot(doc, p)))
SecOf(doc, path) == doc.k[2].v.k[path[2]].n
TolOf(doc, path) ==
  LET s == SecOf(doc, path) x == doc.k[2].v IN Tolerance(x, IF s = "interpolation" THEN "polynomial" ELSE s)
Factors == <<"0", "1/2", "99/100", "101/100", "2", "100">>
Signs == <<"1", "-1">>
Ways == <<"rel", "abs", "floor">>
(* deviation number k: a factor, a sign, a way *)
Count == Len(Factors) * Len(Signs) * Len(Ways)
FactorOf(k) == Factors[((k - 1) % Len(Factors)) + 1]
SignOf(k) == Signs[(((k - 1) \div Len(Factors)) % 2) + 1]
WayOf(k) == Ways[((k - 1) \div (2 * Len(Factors))) + 1]
Moved(x, tol, k) ==
  LET f == RMul(RParse(FactorOf(k)), RParse(SignOf(k))) IN
  CASE WayOf(k) = "rel" -> RMul(x, RAdd(R1, RMul(f, tol)))
    [] WayOf(k) = "abs" -> RAdd(x, RMul(f, tol))
    [] OTHER -> RAdd(x, RMul(f, RParse("1e-8")))
Deviate(doc, path, k) == PutAt(doc, path, JNum(RDecimal(RText(Moved(RParse(Find(doc, path).s), TolOf(doc, path), k)))))

Doc(s) == ExpDoc(s[1], Tolerances[IF s[2] = 1 /\ Len(s) >= 3 THEN s[3] ELSE 1])
Op(doc, i) == [op |-> "expect", doc |-> doc, result |-> Given(i)]
(* s = <<base, 1, tolerances, slot>> or <<base, 2, place>> *)
Deviations(s) == LET doc == TLCEval(Doc(s)) path == Slots(doc)[s[4]] IN [k \in 1..Count |-> Deviate(doc, path, k)]
(* two deviations at once *)
Pairs(s) == LET doc == TLCEval(Doc(s)) sl == Slots(doc) IN
  [k \in 1..12 |-> Deviate(Deviate(doc, sl[s[4]], Draw(s, 10 + k, Count) + 1), sl[Draw(s, 30 + k, Len(sl)) + 1], Draw(s, 50 + k, Count) + 1)]
EditsAt(s) == LET doc == TLCEval(Doc(s)) path == Paths(doc)[s[3]] IN [k \in 1..CountAt(doc, path) |-> ChangeAt(doc, path, k)]
(* members of lists *)
IsMember(doc, path) == Len(path) >= 3 /\ path[1] = 2 /\ Find(doc, SubSeq(path, 1, Len(path) - 1)).t = "arr"
Members(doc) == TLCEval(SelectSeq(Paths(doc), LAMBDA p : IsMember(doc, p)))
Starts(path, begin) == Len(path) >= Len(begin) /\ SubSeq(path, 1, Len(begin)) = begin
Following(path, n) == [path EXCEPT ![n] = @ + 1]
SlotsIn(doc, at) == SelectSeq(Slots(doc), LAMBDA p : Starts(p, at))
CopyFactors == <<3, 6, 12>>   \* deviation numbers relative to the way: 99/100, 100, -100
CopyCount == Len(CopyFactors) * Len(Ways)
CopyDeviation(k) == CopyFactors[((k - 1) % Len(CopyFactors)) + 1] + 2 * Len(Factors) * ((k - 1) \div Len(CopyFactors))
(* the deviations of the numbers of a copied member: for each number and deviation, that of the first, the second, and of the only one *)
Copies(s) ==
  LET doc == TLCEval(Doc(s)) at == Members(doc)[s[3]] n == Len(at) two == TLCEval(CopyAt(doc, at)) sl == TLCEval(SlotsIn(doc, at)) IN
  FlattenSeq([i \in 1..Len(sl) |-> [k \in 1..CopyCount |->
    [first |-> Deviate(two, sl[i], CopyDeviation(k)), second |-> Deviate(two, Following(sl[i], n), CopyDeviation(k)), only |-> Deviate(doc, sl[i], CopyDeviation(k))]]])
Options(s) ==
  CASE Len(s) = 0 -> Len(GivenResults)
    [] Len(s) = 1 -> 3
    [] Len(s) = 2 /\ s[2] = 3 -> Len(Members(Doc(s)))
    [] Len(s) = 2 -> IF s[2] = 1 THEN Len(Tolerances) ELSE Len(Paths(Doc(s)))
    [] Len(s) = 3 -> IF s[2] = 1 THEN Len(Slots(Doc(s))) ELSE 0
    [] OTHER -> 0
Complete(s) == Len(s) = 4 \/ (Len(s) = 3 /\ s[2] \in {2, 3})
Init == c = <<>>
Next == \E k \in 1..Options(c) :
  /\ c' = Append(c, k)
  /\ Holds(Complete(c') => OneIn(c', IF Len(c') = 3 THEN EditPick ELSE Pick))
  /\ IF Complete(c')
     THEN LET docs == TLCEval(IF Len(c') = 4 THEN Deviations(c') \o Pairs(c')
                             ELSE IF c'[2] = 2 THEN EditsAt(c')
                             ELSE LET cs == Copies(c') IN MapSeq(cs, LAMBDA x : x.first) \o MapSeq(cs, LAMBDA x : x.second)) IN
          Emit([ops |-> <<Op(Doc(c'), c'[1])>> \o MapSeq(docs, LAMBDA d : Op(d, c'[1]))])
     ELSE TRUE
Spec == Init /\ [][Next]_c

-----------------------------------------------------------------------------
RPositive(x) == RLt(R0, x)
Verdicts(doc, i) ==
  LET x == At(doc, "expected") R == Given(i) IN
  [primary |-> NodalVerdict(x, "primary", R.primary), reaction |-> NodalVerdict(x, "reaction", R.reaction),
   interpolation |-> InterpolationVerdict(x, R.interp), failure |-> FailureVerdict(x, R.failure)]
Good(v) == \A n \in DOMAIN v : v[n] \in {"pass", "open"}
(* what is described exactly is accepted; with tolerances of zero it may be open *)
Accepted(s) == LET doc == Doc(s) IN ~Refused(doc) /\ ~Unclear(doc) /\ Good(Verdicts(doc, s[1])) /\ (s[3] # 4 => \A n \in DOMAIN Verdicts(doc, s[1]) : Verdicts(doc, s[1])[n] = "pass")
(* a deviation of a number fails no more than the kind of assertion it belongs to; a smaller one is no
   worse; one of half the tolerance is accepted, one of a hundred times both tolerances isn't *)
DeviationTheorems(s) ==
  LET doc == TLCEval(Doc(s)) path == Slots(doc)[s[4]] sec == SecOf(doc, path) tol == TolOf(doc, path)
      vs == TLCEval([k \in 1..Count |-> Verdicts(Deviate(doc, path, k), s[1])])
      isX == sec = "interpolation" /\ Len(path) = 7 /\ path[7] = 1     \* the position of a sample
      isRange == sec = "interpolation" /\ Find(doc, SubSeq(path, 1, 4)).k[path[5]].n = "range"
      bad(name, ok, k) == IF ok THEN TRUE ELSE PrintT(<<"BROKEN", name, s, k, path, Find(doc, path), vs[k]>>) /\ FALSE
  IN \A k \in 1..Count :
       /\ bad("others", \A n \in DOMAIN vs[k] \ {sec} : vs[k][n] \in {"pass", "open"}, k)
       /\ bad("monotone", \A m \in 1..Count : (~isX /\ WayOf(m) = WayOf(k) /\ SignOf(m) = SignOf(k) /\ RLe(RParse(FactorOf(m)), RParse(FactorOf(k))) /\ vs[k][sec] = "pass") => vs[m][sec] = "pass", k)
       /\ bad("half", (~isX /\ ~isRange /\ RPositive(tol) /\ WayOf(k) = "rel" /\ FactorOf(k) \in {"0", "1/2"}) => vs[k][sec] = "pass", k)
       /\ bad("far", (~isX /\ ~isRange /\ WayOf(k) = "abs" /\ FactorOf(k) = "100" /\ RLt(RParse("1e-9"), tol) /\ RLt(tol, RParse("0.01"))
             /\ RLt(RAbs(RParse(Find(doc, path).s)), RInt(40))) => vs[k][sec] = "fail", k)
EditTheorems(s) ==
  LET docs == TLCEval(EditsAt(s)) IN
  \A k \in 1..Len(docs) : Unclear(docs[k]) \/ (Refused(docs[k]) \in BOOLEAN /\ (~Refused(docs[k]) => LET v == Verdicts(docs[k], s[1]) IN \A n \in DOMAIN v : v[n] \in {"pass", "fail", "open"}))

(* a number that isn't met fails its section, whether or not there is a copy that is met *)
CopyTheorems(s) ==
  LET cs == TLCEval(Copies(s)) at == Members(Doc(s))[s[3]] sec == SecOf(Doc(s), at) IN
  \A i \in 1..Len(cs) : Unclear(cs[i].first) \/ Refused(cs[i].first) \/
    LET a == Verdicts(cs[i].first, s[1]) b == Verdicts(cs[i].second, s[1]) o == Verdicts(cs[i].only, s[1]) IN
    Len(at) = 4 => (a[sec] = o[sec] /\ b[sec] = o[sec])
Theorems ==
  /\ Len(c) = 3 /\ c[2] = 1 => Accepted(c)
  /\ Len(c) = 4 => DeviationTheorems(c)
  /\ Len(c) = 3 /\ c[2] = 2 => EditTheorems(c)
  /\ Len(c) = 3 /\ c[2] = 3 => CopyTheorems(c)
=============================================================================
