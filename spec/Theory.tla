------------------------------- MODULE Theory -------------------------------
(***************************************************************************)
(* Theorems of structural mechanics that the specified solution (module    *)
(* Mechanics) must satisfy for every structure.  None of them is used to   *)
(* compute the solution.  The models MC_* check them on the structures     *)
(* they explore, all in exact arithmetic, so that no tolerance is needed.  *)
(***************************************************************************)
EXTENDS Deflect

-----------------------------------------------------------------------------
(* Rigid body movements: name -> displacement of the point x, y, z *)
PlaneModes == {"tx", "tz", "ry"}
SpaceModes == PlaneModes \cup {"ty", "rz", "rx"}
Mode(m, nd) ==
  LET x == RParse(nd.x) y == RParse(nd.y) z == RParse(nd.z)
      zero == [Ux |-> R0, Uz |-> R0, Uy |-> R0, Phiy |-> R0, Phiz |-> R0, Phix |-> R0]
  IN CASE m = "tx" -> [zero EXCEPT !.Ux = R1]
       [] m = "tz" -> [zero EXCEPT !.Uz = R1]
       [] m = "ty" -> [zero EXCEPT !.Uy = R1]
       [] m = "ry" -> [zero EXCEPT !.Ux = z, !.Uz = RNeg(x), !.Phiy = R1]
       [] m = "rz" -> [zero EXCEPT !.Ux = y, !.Uy = RNeg(x)]
       [] m = "rx" -> [zero EXCEPT !.Uy = z, !.Uz = RNeg(y)]

(* displacements along and across the element at its ends *)
AlongAt(el, v) == RDiv(RAdd(RMul(el.dx, v.Ux), RAdd(RMul(el.dz, v.Uz), IF el.kind = "truss3d" THEN RMul(el.dy, v.Uy) ELSE R0)), el.L)
AcrossAt(el, v) == RDiv(RSub(RMul(el.dz, v.Ux), RMul(el.dx, v.Uz)), el.L)
LineBetween(a, b, L) == <<a, RDiv(RSub(b, a), L)>>
(* work of a load on the displacements along (u), across (w) and the slope w' (t), all polynomials *)
WorkOf(el, l, u, w, t) ==
  LET along == IF l.kind = "Ux" THEN u ELSE w IN
  CASE l.type # "dirac" -> PIntegral(PMul(Distribution(l, el.L), along), R0, el.L)
    [] l.kind = "Phiy" -> RNeg(RMul(l.v0, PEval(t, l.pos)))
    [] OTHER -> RMul(l.v0, PEval(along, l.pos))
RigidWork(St, el, l, m) ==
  LET a == Mode(m, ById(St.nodes, el.n0)) b == Mode(m, ById(St.nodes, el.n1)) IN
  WorkOf(el, l, LineBetween(AlongAt(el, a), AlongAt(el, b), el.L), LineBetween(AcrossAt(el, a), AcrossAt(el, b), el.L), <<a.Phiy>>)

SumOver(S, f(_)) == SumSeq([i \in 1..Cardinality(S) |-> f(SetToSeq(S)[i])])
External(St, sol, x) == RAdd(sol.r[x], NodalLoad(St, x))
Plane(St) == \A i \in 1..Len(St.elems) : St.elems[i].kind # "truss3d"
Space(St) == \A i \in 1..Len(St.elems) : St.elems[i].kind = "truss3d"
Modes(St) == IF Plane(St) THEN PlaneModes ELSE IF Space(St) THEN SpaceModes ELSE {"tx", "tz", "ry"}

(* loads and support forces are in equilibrium: they do no work on rigid body movements *)
Equilibrium(St, sol) ==
  LET els == Elems(St) IN
  \A m \in Modes(St) :
    RIsZero(RAdd(SumOver(DOMAIN sol.d, LAMBDA x : RMul(External(St, sol, x), Mode(m, ById(St.nodes, x[1]))[x[2]])),
                 SumSeq([k \in 1..Len(els) |-> SumSeq([i \in 1..Len(els[k].loads) |-> RigidWork(St, els[k], els[k].loads[i], m)])])))

-----------------------------------------------------------------------------
(* The functions along an element, integrated from its start, arrive at the right values at its end *)
Arrives(el, se) ==
  LET p(kind) == PointSum(el, kind, el.L) fn == se.fn IN
  /\ LastVal(fn.Nx) = RAdd(se.f["u1"], p("Ux"))
  /\ LastVal(fn.Ux) = se.q["u1"]
  /\ el.kind = "frame2d" =>
       /\ LastVal(fn.Vz) = RAdd(se.f["w1"], p("Uz"))
       /\ LastVal(fn.My) = RAdd(RNeg(se.f["t1"]), p("Phiy"))
       /\ LastVal(fn.Phiy) = RNeg(se.q["t1"])
       /\ LastVal(fn.Uz) = se.q["w1"]
(* Without hinges the ends move like the nodes *)
Compatible(St, el, se, sol) ==
  LET at(n) == [d \in {"Ux", "Uz", "Uy", "Phiy"} |-> IF <<n, d>> \in DOMAIN sol.d THEN sol.d[<<n, d>>] ELSE R0]
      ok(name, v) == name \in el.rel \/ se.q[name] = v
  IN /\ ok("u0", AlongAt(el, at(el.n0))) /\ ok("u1", AlongAt(el, at(el.n1)))
     /\ el.kind = "frame2d" => /\ ok("w0", AcrossAt(el, at(el.n0))) /\ ok("w1", AcrossAt(el, at(el.n1)))
                               /\ ok("t0", at(el.n0).Phiy) /\ ok("t1", at(el.n1).Phiy)
(* Hinges don't transfer forces *)
Hinged(el, se) == \A name \in el.rel : RIsZero(se.f[name])
(* Neighbouring pieces: displacements, and forces without concentrated loads, are continuous *)
Continuous(el, se) ==
  LET jump(ps, k) == RSub(PEval(ps[k + 1].p, ps[k + 1].a), PEval(ps[k].p, ps[k].b))
      all(f, load) == \A k \in 1..(Len(se.fn[f]) - 1) :
                        jump(se.fn[f], k) = IF load = "" THEN R0 ELSE RNeg(PointSum(el, load, se.fn[f][k].b))
  IN /\ all("Nx", "Ux") /\ all("Ux", "")
     /\ el.kind = "frame2d" => all("Vz", "Uz") /\ all("My", "Phiy") /\ all("Phiy", "") /\ all("Uz", "")

(* What holds at supports *)
Supported(St, sol) ==
  LET inLink == LinkDofs(St) IN
  /\ \A i \in 1..Len(St.dirichlet) : LET x == <<St.dirichlet[i].node, St.dirichlet[i].dof>> IN
        x \notin inLink => sol.d[x] = RParse(St.dirichlet[i].val)
  /\ \A x \in DOMAIN sol.d : x \notin PrescribedSet(St) \cup inLink => RIsZero(sol.r[x])
  \* a single inclined support at its node: it does not move along its normal, its force has this direction
  /\ \A k \in 1..Len(St.links) :
        LET l == St.links[k] i == <<l.node, l.from>> j == <<l.node, l.to>> c == RParse(l.c) s == RParse(l.s)
            mine == {m \in 1..Len(St.links) : St.links[m].node = l.node} = {k}
        IN mine /\ {i, j} \cap FixedDirect(St) = {} =>
             /\ RIsZero(RSub(RMul(c, sol.d[j]), RMul(s, sol.d[i])))
             /\ RIsZero(RAdd(RMul(c, sol.r[i]), RMul(s, sol.r[j])))

-----------------------------------------------------------------------------
(* Clapeyron: the external forces do twice the work that is stored as strain energy *)
PieceWork(ps, factor) == SumSeq([k \in 1..Len(ps) |-> RMul(factor, PIntegral(PMul(ps[k].p, ps[k].p), ps[k].a, ps[k].b))])
Energy(el, se) == RAdd(PieceWork(se.fn.Nx, RDiv(R1, el.EA)), IF el.kind = "frame2d" THEN PieceWork(se.fn.My, RDiv(R1, el.EI)) ELSE R0)
PieceAt(ps, x) == ps[CHOOSE k \in 1..Len(ps) : RLe(ps[k].a, x) /\ RLe(x, ps[k].b)]
LoadWorkOn(el, l, se) == \* work of l on the displacements of se
  LET f == IF l.kind = "Ux" THEN "Ux" ELSE IF l.kind = "Phiy" THEN "Phiy" ELSE "Uz" IN
  IF f \notin DOMAIN se.fn THEN R0
  ELSE IF l.type = "dirac" THEN RMul(l.v0, PEval(PieceAt(se.fn[f], l.pos).p, l.pos))
  ELSE SumSeq([k \in 1..Len(se.fn[f]) |-> PIntegral(PMul(Distribution(l, el.L), se.fn[f][k].p), se.fn[f][k].a, se.fn[f][k].b)])
(* work of the forces of one load case on the displacements of another one of the same structure *)
CrossWork(StA, solA, solB) ==
  LET els == Elems(StA) IN
  RAdd(SumOver(DOMAIN solA.d, LAMBDA x : RMul(External(StA, solA, x), solB.d[x])),
       SumSeq([k \in 1..Len(els) |-> SumSeq([i \in 1..Len(els[k].loads) |-> LoadWorkOn(els[k], els[k].loads[i], solB.el[k])])]))
Clapeyron(St, sol) ==
  LET els == Elems(St) IN
  CrossWork(St, sol, sol) = SumSeq([k \in 1..Len(els) |-> Energy(els[k], sol.el[k])])
(* Betti: of two load cases, each does the same work on the displacements of the other *)
Betti(StA, solA, StB, solB) == CrossWork(StA, solA, solB) = CrossWork(StB, solB, solA)

-----------------------------------------------------------------------------
Rational(St) == \A k \in 1..Len(Elems(St)) : RIsSquare(Elems(St)[k].L2)
(* The theorems that fail, by name *)
Broken(St, sol) ==
  LET els == Elems(St) K == 1..Len(els) IN
  (IF Equilibrium(St, sol) THEN {} ELSE {"equilibrium"})
  \cup (IF \A k \in K : Arrives(els[k], sol.el[k]) THEN {} ELSE {"arrives"})
  \cup (IF \A k \in K : Compatible(St, els[k], sol.el[k], sol) THEN {} ELSE {"compatible"})
  \cup (IF \A k \in K : Hinged(els[k], sol.el[k]) THEN {} ELSE {"hinged"})
  \cup (IF \A k \in K : Continuous(els[k], sol.el[k]) THEN {} ELSE {"continuous"})
  \cup (IF Supported(St, sol) THEN {} ELSE {"supported"})
  \cup (IF Clapeyron(St, sol) THEN {} ELSE {"clapeyron"})
(* A structure has exactly one solution if it is stable *)
TheoremsHold(St) ==
  LET sol == SolveStructure(St) IN
  /\ Stable(St) <=> sol.ok
  /\ sol.ok /\ Rational(St) => LET b == Broken(St, sol) IN IF b = {} THEN TRUE ELSE PrintT(<<"BROKEN", b, St>>) /\ FALSE
=============================================================================
