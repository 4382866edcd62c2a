------------------------------ MODULE Deflect ------------------------------
(***************************************************************************)
(* The behaviour of deflect's public API as a state machine.               *)
(*                                                                         *)
(* State:                                                                  *)
(*   prob : name -> structure (see Mechanics), with the loads on its       *)
(*          elements in the bag                                            *)
(*   lay  : name -> [con, all]  constrained and all degrees of freedom     *)
(*   res  : name -> what a solve returned: the structure it was made for   *)
(*          (with the loads at that time), the exact solution, the order   *)
(*          of equations, and the magnitudes that set the tolerances       *)
(*                                                                         *)
(* There is no other state: solvers, inclined support objects, materials,  *)
(* failed calls, queries, ... do not occur here, so that whatever they     *)
(* remember in the implementation must not matter.                         *)
(*                                                                         *)
(* For each call there is the effect on the state, and the set of clauses  *)
(* its reply must satisfy: <<name, condition, text>>.                      *)
(***************************************************************************)
EXTENDS Mechanics

Cl(name, cond, text) == <<name, cond, text>>

-----------------------------------------------------------------------------
(* Creating elements *)
RelAxial(e) == Released(e) \cap {"u0", "u1"}
RelBending(e) == Released(e) \cap {"w0", "t0", "w1", "t1"}
HingesSupported(e) ==
  /\ RelAxial(e) # {"u0", "u1"}
  /\ RelBending(e) \in {{}, {"w0"}, {"t0"}, {"w1"}, {"t1"}, {"t0", "w1"}, {"t0", "t1"}, {"w0", "t1"}}
(* The bending releases for which the element can still carry bending or shear at all, i.e. for
   which no end displacement is left undetermined *)
HingesRepresentable(e) ==
  /\ RelAxial(e) # {"u0", "u1"}
  /\ ~ ({"w0", "w1"} \subseteq RelBending(e))
  /\ Cardinality(RelBending(e)) <= 2
SamePlace(a, b) == RParse(a.x) = RParse(b.x) /\ RParse(a.y) = RParse(b.y) /\ RParse(a.z) = RParse(b.z)
ElemOk(nodes, e) == e.id # "" /\ ~SamePlace(ById(nodes, e.n0), ById(nodes, e.n1)) /\ HingesSupported(e)

-----------------------------------------------------------------------------
(* Element loads.  Concentrated loads must lie on the element. *)
ElemLength(St, id) ==
  LET e == ById(St.elems, id) a == ById(St.nodes, e.n0) b == ById(St.nodes, e.n1)
      sq(x) == RMul(x, x) d(s, t) == sq(RSub(RParse(s), RParse(t)))
  IN RSqrt(RAdd(d(a.x, b.x), RAdd(d(a.y, b.y), d(a.z, b.z))))
KindCarries(kind, load) ==
  CASE load.type = "dirac" -> load.kind \in (IF kind = "frame2d" THEN {"Ux", "Uz", "Phiy"} ELSE {"Ux"})
    [] load.type \in {"constant", "linear"} -> load.kind \in (IF kind = "frame2d" THEN {"Ux", "Uz"} ELSE {"Ux"})
    [] OTHER -> FALSE
OnElement(St, id, load) == load.type # "dirac" \/ RLe(RParse(load.pos), RAdd(ElemLength(St, id), RParse("1e-10")))
LoadCreated(load) == load.type # "dirac" \/ RLe(R0, RParse(load.pos))
Accepts(St, id, load) == LoadCreated(load) /\ KindCarries(ById(St.elems, id).kind, load) /\ OnElement(St, id, load)
AddTo(bag, id, load) == [bag EXCEPT ![id] = Append(@, load)]
RemoveFrom(bag, id, lid) == [bag EXCEPT ![id] = SelectSeq(@, LAMBDA l : l.id # lid)]
CountOf(s, x) == Cardinality({i \in 1..Len(s) : s[i] = x})
SameBag(a, b) == DOMAIN a = DOMAIN b /\ \A e \in DOMAIN a :
                   Len(a[e]) = Len(b[e]) /\ \A i \in 1..Len(a[e]) : CountOf(a[e], a[e][i]) = CountOf(b[e], a[e][i])

-----------------------------------------------------------------------------
(* Layouts *)
PrescribedSet(St) == {Prescribed(St)[i] : i \in 1..Len(Prescribed(St))}
Duplicates(St) == {x \in PrescribedSet(St) : CountOf(Prescribed(St), x) > 1}
Unconnected(St) == PrescribedSet(St) \ AllDofs(St)
LayoutOk(St) == Duplicates(St) = {} /\ Unconnected(St) = {}
LayoutOf(St) == [con |-> PrescribedSet(St), all |-> AllDofs(St)]

-----------------------------------------------------------------------------
(* Solving *)
LinkDofs(St) == UNION {{<<St.links[k].node, St.links[k].from>>, <<St.links[k].node, St.links[k].to>>} : k \in 1..Len(St.links)}
Referred(St) == AllDofs(St) \cup PrescribedSet(St)
                \cup {<<St.neumann[i].node, St.neumann[i].dof>> : i \in 1..Len(St.neumann)}
                \cup {<<St.links[i].node, St.links[i].from>> : i \in 1..Len(St.links)}
(* "ok": must succeed; "err", "unstable": must fail; "any": may fail, but must not return anything but the solution;
   "open": nothing is promised (the layout has degrees of freedom the problem does not, all of them fixed) *)
IsBad(St) == "bad" \in DOMAIN St   \* described by an invalid document, see JsonInput
SolveOutcome(St, L) ==
  CASE IsBad(St) -> "err"
    [] Duplicates(St) # {} -> "err"
    [] Len(Prescribed(St)) = 0 -> "err"
    [] ~(Referred(St) \subseteq L.all) -> "err"
    [] AllDofs(St) # L.all ->   \* superfluous degrees of freedom have no stiffness
         IF (L.all \ AllDofs(St)) \subseteq PrescribedSet(St) \/ (L.all \ AllDofs(St)) \cap LinkDofs(St) # {} THEN "open" ELSE "err"
    [] Cardinality(PrescribedSet(St)) >= Cardinality(L.all) -> "err"
    [] ~Stable(St) -> "unstable"
    [] L.con # PrescribedSet(St) -> "any"
    [] OTHER -> "ok"

(* Magnitudes of the solution, the basis of tolerances for floating point results *)
SeqMax(s) == LET RECURSIVE M(_)
                 M(k) == IF k = 0 THEN R0 ELSE RMax(RAbs(s[k]), M(k - 1))
             IN M(Len(s))
SetMax(S) == SeqMax(SetToSeq(S))
PieceVals(ps) == UNION {{PEval(ps[k].p, ps[k].a), PEval(ps[k].p, RDiv(RAdd(ps[k].a, ps[k].b), 2)), PEval(ps[k].p, ps[k].b)} : k \in 1..Len(ps)}
FnVals(sol, names) == UNION {UNION {PieceVals(sol.el[k].fn[f]) : f \in names \cap DOMAIN sol.el[k].fn} : k \in 1..Len(sol.el)}
Magnitudes(St, sol, tol) ==
  LET els == Elems(St)
      K == 1..Len(els)
      trans == {x \in DOMAIN sol.d : x[2] \in {"Ux", "Uy", "Uz"}}
      rot == DOMAIN sol.d \ trans
      Lmax == SetMax({els[k].L : k \in K})
      Lmin == CHOOSE l \in {els[k].L : k \in K} : \A k \in K : RLe(l, els[k].L)
      cube(x) == RMul(x, RMul(x, x))
      bent == {k \in K : els[k].kind = "frame2d"}
      stiff == SetMax({RDiv(els[k].EA, els[k].L) : k \in K} \cup {RDiv(RMul(12, els[k].EI), cube(els[k].L)) : k \in bent})
      soft == SetMax({RDiv(els[k].L, els[k].EA) : k \in K} \cup {RDiv(cube(els[k].L), els[k].EI) : k \in bent})
      fLoads == {RMul(l.v0, IF l.type = "dirac" THEN R1 ELSE Lmax) : l \in UNION {ToSet(els[k].loads) : k \in K}}
                \cup {RMul(l.v1, Lmax) : l \in UNION {ToSet(els[k].loads) : k \in K}}
                \cup {RParse(St.neumann[i].val) : i \in 1..Len(St.neumann)}
      F0 == RMax(SetMax(fLoads), SetMax(FnVals(sol, {"Nx", "Vz"}) \cup {sol.r[x] : x \in trans}))
      M0 == SetMax(FnVals(sol, {"My"}) \cup {sol.r[x] : x \in rot})
      U0 == SetMax(FnVals(sol, {"Ux", "Uz"}) \cup {sol.d[x] : x \in trans})
      P0 == SetMax(FnVals(sol, {"Phiy"}) \cup {sol.d[x] : x \in rot})
      t == RParse(tol)
      small == RParse("1e-12")
      \* the effect of rounding the forces that large displacements of stiff elements cause on soft ones
      creep == RMul(RMul(RParse("1e-15"), RMul(stiff, soft)), U0)
      FF == RMax(F0, RDiv(M0, Lmax))
  IN [u |-> RAdd(RAdd(RMul(t, U0), creep), RMul(small, RAdd(RMul(FF, soft), RMul(P0, Lmax)))),
      phi |-> RAdd(RMul(t, P0), RDiv(RAdd(creep, RMul(small, RAdd(RMul(FF, soft), U0))), Lmin)),
      f |-> RAdd(RMul(t, F0), RMul(small, RAdd(RMul(stiff, U0), RMul(RInt(100), RDiv(M0, Lmin))))),
      m |-> RAdd(RMul(t, M0), RMul(small, RMul(RAdd(RMul(stiff, U0), RMul(RInt(100), F0)), Lmax))),
      L |-> Lmax]

(* ordered: was the layout made for exactly the supports of this structure? *)
ResultOf(St, ordered, tol) == LET sol == SolveStructure(St) IN
  [st |-> St, ordered |-> ordered, d |-> sol.d, r |-> sol.r, el |-> sol.el, order |-> DofOrder(St),
   mag |-> Magnitudes(St, sol, tol)]

-----------------------------------------------------------------------------
(* Replies.  Numbers in replies are texts. *)
Close(text, x, tol) == RIsNum(text) /\ RLe(RAbs(RSub(RParse(text), x)), tol)
IsRot(dof) == dof \in {"Phiy", "Phiz", "Phix"}
TolD(R, dof) == IF IsRot(dof) THEN R.mag.phi ELSE R.mag.u
TolR(R, dof) == IF IsRot(dof) THEN R.mag.m ELSE R.mag.f
Show(x) == RStr(x)

FixedDirect(St) == {<<St.dirichlet[i].node, St.dirichlet[i].dof>> : i \in 1..Len(St.dirichlet)} \ LinkDofs(St)
FixedVal(St, x) == LET i == CHOOSE i \in 1..Len(St.dirichlet) : <<St.dirichlet[i].node, St.dirichlet[i].dof>> = x
                   IN RParse(St.dirichlet[i].val)

DispClause(R, x, text) == Cl("disp", Close(text, R.d[x], TolD(R, x[2])), <<x, text, Show(R.d[x])>>)
FixedClause(R, x, text) == \* prescribed values are reported as they are
  IF x \notin FixedDirect(R.st) THEN {}
  ELSE {Cl("fixed", Close(text, FixedVal(R.st, x), RMul(RAbs(FixedVal(R.st, x)), RParse("1e-14"))), <<x, text>>)}
ReacClause(R, x, text) ==
  {Cl("reac", Close(text, R.r[x], TolR(R, x[2])), <<x, text, Show(R.r[x])>>)}
  \cup IF x \in PrescribedSet(R.st) \cup LinkDofs(R.st) THEN {}
       ELSE {Cl("free", Close(text, R0, TolR(R, x[2])), <<x, text>>)}

AllClauses(R, rep) ==
  LET order == R.order n == Len(order)
      at(s, i) == <<s[i].node, s[i].dof>>
      shape(s) == Len(s) = n /\ \A i \in 1..n : at(s, i) = order[i]
      cover(s) == {at(s, i) : i \in 1..Len(s)} = DOMAIN R.d /\ Len(s) = n
      known(s) == {i \in 1..Len(s) : at(s, i) \in DOMAIN R.d}
  IN (IF R.ordered
      THEN {Cl("dim", rep.total = n /\ rep.net = n - Len(Prescribed(R.st)), <<rep.total, rep.net, n>>),
            Cl("order", shape(rep.prim) /\ shape(rep.reac), <<rep.prim, order>>)} ELSE {}) \cup
     {Cl("cover", cover(rep.prim) /\ cover(rep.reac), <<rep.prim, order>>),
      Cl("agree", rep.prim1 = rep.prim /\ rep.reac1 = rep.reac, <<rep.prim, rep.prim1, rep.reac, rep.reac1>>)}
     \cup {DispClause(R, at(rep.prim, i), rep.prim[i].val) : i \in known(rep.prim)}
     \cup UNION {FixedClause(R, at(rep.prim, i), rep.prim[i].val) : i \in known(rep.prim)}
     \cup UNION {ReacClause(R, at(rep.reac, i), rep.reac[i].val) : i \in known(rep.reac)}

GetClauses(R, what, x, rep) ==
  IF x \notin DOMAIN R.d THEN {Cl("geterr", rep.err # "", <<x, rep>>)}
  ELSE {Cl("getok", rep.err = "" /\ rep.node = x[1] /\ rep.dof = x[2], <<x, rep>>)}
       \cup IF rep.err # "" THEN {}
            ELSE IF what = "primary" THEN {DispClause(R, x, rep.val)} \cup FixedClause(R, x, rep.val)
            ELSE ReacClause(R, x, rep.val)

-----------------------------------------------------------------------------
(* Interpolations *)
FctNames == <<"Ux", "Uz", "Uy", "Phiy", "Phiz", "Phix", "Nx", "Vz", "Vy", "My", "Mz", "Mx">>
FctTol(R, f) == CASE f \in {"Ux", "Uz", "Uy"} -> R.mag.u [] f \in {"Phiy", "Phiz", "Phix"} -> R.mag.phi
                  [] f \in {"Nx", "Vz", "Vy"} -> R.mag.f [] OTHER -> R.mag.m
FctClass(f) == CASE f = "Nx" -> "fnN" [] f = "Vz" -> "fnV" [] f = "My" -> "fnM" [] OTHER -> "fnU"
Coeffs(p) == [i \in 1..Len(p.c) |-> RParse(p.c[i])]
AllNum(ps) == \A k \in 1..Len(ps) : RIsNum(ps[k].x0) /\ RIsNum(ps[k].xe) /\ \A i \in 1..Len(ps[k].c) : RIsNum(ps[k].c[i])

(* the largest change of a value that trimming and joining with tolerance z may cause *)
RECURSIVE PowSum(_, _)
PowSum(L, k) == IF k = 0 THEN R1 ELSE RAdd(R1, RMul(L, PowSum(L, k - 1)))
Slack(cs, L, z, n) == LET c == SeqMax(cs) IN RMul(RMul(RInt(2 * n), z), RMul(RAdd(R1, c), PowSum(RMax(L, R1), 5)))

(* Do the pieces describe the exact function?  Compared on every overlap of a reported and an
   exact interval at six points, which determines polynomials up to degree five. *)
SameFunction(ps, exact, L, tol, z) ==
  LET all == IF RIsZero(z) THEN <<>> ELSE FlattenSeq([j \in 1..Len(exact) |-> exact[j].p]) IN
  \A k \in 1..Len(ps) : \A j \in 1..Len(exact) :
    LET a == RMax(RParse(ps[k].x0), exact[j].a)
        b == RMin(RParse(ps[k].xe), exact[j].b)
        diff == PSub(Coeffs(ps[k]), exact[j].p)
        t == RAdd(tol, Slack(all, L, z, Len(exact)))
    IN RLt(RMul(RParse("1e-8"), L), RSub(b, a)) =>
         \A i \in 0..5 : RLe(RAbs(PEval(diff, RAdd(a, RMul(RDiv(RInt(i), 5), RSub(b, a))))), t)

Covers(ps, L) ==
  LET eps == RMul(RParse("1e-9"), L) IN
  /\ Len(ps) > 0
  /\ Close(ps[1].x0, R0, eps)
  /\ Close(ps[Len(ps)].xe, L, eps)
  /\ \A k \in 1..(Len(ps) - 1) : Close(ps[k].xe, RParse(ps[k + 1].x0), eps)
  /\ \A k \in 1..Len(ps) : RLt(RParse(ps[k].x0), RParse(ps[k].xe))

(* |a - b| <= tol absolutely or relatively; near the limit either answer is right *)
Limit(a, b, tol) == RMax(tol, RMul(tol, RMax(RAbs(a), RAbs(b))))
Within(a, b, tol) == RLe(RAbs(RSub(a, b)), Limit(a, b, tol))
Fuzz == RParse("1.000000001")
Noise(a, b) == RMul(RParse("5e-16"), RMax(RAbs(a), RAbs(b)))   \* numbers are rounded before they are subtracted
SurelyWithin(a, b, tol) == a = b \/ RLe(RAdd(RAbs(RSub(a, b)), Noise(a, b)), RDiv(Limit(a, b, tol), Fuzz))
PossiblyWithin(a, b, tol) == RLe(RSub(RAbs(RSub(a, b)), Noise(a, b)), RMul(Limit(a, b, tol), Fuzz))
(* Neighbours that agree within a tolerance must be joined.  That is no equivalence: joined pieces may
   have left one that agrees with its neighbour, although the last piece that was joined does not.
   So the exact functions on both sides of the end of the interval must agree, too. *)
RECURSIVE ExactTrimmed(_, _)
ExactTrimmed(p, z) ==
  IF Len(p) = 0 THEN <<R0>>
  ELSE LET small == RLe(RMul(RParse("1.01"), RAbs(p[Len(p)])), z) IN
       IF ~small THEN IF RLe(RMul(RParse("1.01"), RAbs(p[1])), z) THEN [p EXCEPT ![1] = R0] ELSE p
       ELSE IF Len(p) = 1 THEN <<R0>> ELSE ExactTrimmed(SubSeq(p, 1, Len(p) - 1), z)
SameExactly(x, exact, L, z) ==
  \/ RIsZero(z)
  \/ LET at == {j \in 1..(Len(exact) - 1) : RLe(RAbs(RSub(exact[j].b, x)), RMul(RParse("1e-8"), L))} IN
     \A j \in at : LET p == ExactTrimmed(exact[j].p, z) q == ExactTrimmed(exact[j + 1].p, z) IN
                   Len(p) = Len(q) /\ \A i \in 1..Len(p) : RLe(RMul(RParse("1.01"), RAbs(RSub(p[i], q[i]))), Limit(p[i], q[i], z))
Canonical(ps, exact, L, z) ==
  /\ \A k \in 1..Len(ps) :
       /\ Len(ps[k].c) >= 1
       /\ LET last == RParse(ps[k].c[Len(ps[k].c)]) IN
          ~RLe(RAbs(last), RDiv(z, Fuzz)) \/ (Len(ps[k].c) = 1 /\ RIsZero(last))
  /\ \A k \in 1..(Len(ps) - 1) :
       ~(Len(ps[k].c) = Len(ps[k + 1].c)
         /\ \A i \in 1..Len(ps[k].c) : SurelyWithin(RParse(ps[k].c[i]), RParse(ps[k + 1].c[i]), z)
         /\ SameExactly(RParse(ps[k].xe), exact, L, z))

(* Where the exact function changes by more than the tolerance may conceal, an interval ends,
   except that positions no more than 1e-10 apart may be taken for one. *)
Changes(p, q, L, tol, z) ==
  LET n == IF Len(p) < Len(q) THEN Len(q) ELSE Len(p)
      RECURSIVE Pow(_)
      Pow(i) == IF i = 0 THEN R1 ELSE RMul(L, Pow(i - 1))
  IN \E i \in 1..n :
       LET c == PCoef(p, i) d == PCoef(q, i) IN
       RLt(RAdd(RMul(RMul(RInt(4), z), RAdd(R1, RMax(RAbs(c), RAbs(d)))), RDiv(RMul(RInt(10), tol), Pow(i - 1))), RAbs(RSub(c, d)))
Splits(ps, exact, L, tol, z) ==
  \A j \in 1..(Len(exact) - 1) :
    (/\ Changes(exact[j].p, exact[j + 1].p, L, tol, z)
     /\ \A i \in {j, j + 1} : RLt(RParse("2e-10"), RSub(exact[i].b, exact[i].a))) =>
      \E k \in 1..Len(ps) : Close(ps[k].xe, exact[j].b, RMul(RParse("1e-8"), L))

ElemOf(R, id) == R.el[CHOOSE k \in 1..Len(R.el) : R.el[k].id = id]
HasElem(R, id) == \E k \in 1..Len(R.el) : R.el[k].id = id
IpClauses(R, id, f, z, ip) ==
  LET el == ElemOf(R, id) tag == <<id, f, ip>> IN
  {Cl("ipid", ip.elem = id /\ ip.fct = f, tag)}
  \cup IF f \notin DOMAIN el.fn THEN {Cl("absent", Len(ip.ps) = 0 /\ ip.nil, tag)}
       ELSE IF ~AllNum(ip.ps) THEN {Cl(FctClass(f), FALSE, tag)}
       ELSE IF ~Covers(ip.ps, el.L) THEN {Cl("ipform", FALSE, tag), Cl(FctClass(f), FALSE, tag)}
       ELSE {Cl("ipform", Canonical(ip.ps, el.fn[f], el.L, z), tag),
             Cl("ipsplit", Splits(ip.ps, el.fn[f], el.L, FctTol(R, f), z), tag),
             Cl(FctClass(f), SameFunction(ip.ps, el.fn[f], el.L, FctTol(R, f), z),
                <<id, f, ip, [k \in 1..Len(el.fn[f]) |-> <<Show(el.fn[f][k].a), Show(el.fn[f][k].b),
                                 [i \in 1..Len(el.fn[f][k].p) |-> Show(el.fn[f][k].p[i])]>>]>>)}

(* same: are the problem's element loads those the result was computed for? *)
InterpClauses(R, id, f, z, rep, same) ==
  IF ~HasElem(R, id) THEN {Cl("iperr", rep.err # "", <<id, rep>>)}
  ELSE IF ~same THEN {}
  ELSE {Cl("ipok", rep.err = "", <<id, f, rep>>)} \cup IF rep.err # "" THEN {} ELSE IpClauses(R, id, f, z, rep.ip)

InterpAllClauses(R, ids, z, rep, same) ==
  IF ~same THEN {}
  ELSE LET want == {<<id, FctNames[i]>> : id \in ids, i \in 1..12}
           has == {x \in want : x[2] \in DOMAIN ElemOf(R, x[1]).fn}
           given == {rep.single[k] : k \in 1..Len(rep.single)}
           all == {rep.all[k] : k \in 1..Len(rep.all)}
       IN {Cl("ipok", rep.errs = <<>>, rep.errs),
           Cl("allsame", Len(rep.all) = Cardinality(all) /\ all = {x \in given : ~x.nil}, rep.all),
           Cl("allcover", {<<x.elem, x.fct>> : x \in all} = has /\ Len(rep.all) = Cardinality(has), rep.all)}
          \cup UNION {LET x == <<rep.single[k].elem, rep.single[k].fct>> IN
                      IF x \in want THEN IpClauses(R, x[1], x[2], z, rep.single[k])
                      ELSE {Cl("ipid", FALSE, x)} : k \in 1..Len(rep.single)}
=============================================================================
