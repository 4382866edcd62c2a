----------------------------- MODULE Mechanics -----------------------------
(***************************************************************************)
(* Exact solution of linear-elastic plane frames, plane trusses and space  *)
(* trusses, from first principles:                                         *)
(*                                                                         *)
(*  - every element has end displacements in local axes (u along the       *)
(*    element, w transverse and "downward", slope t = dw/dx); without a    *)
(*    hinge they are those of the node, a hinged one is an unknown of its  *)
(*    own (there is no static condensation in here);                       *)
(*  - the principle of virtual work with exact integrals over the shape    *)
(*    functions that solve the homogeneous differential equations gives    *)
(*    stiffness and load terms;                                            *)
(*  - supports and inclined supports are constraints with Lagrange         *)
(*    multipliers, which are the support forces;                           *)
(*  - internal forces follow from cutting the element free, displacements  *)
(*    along the element from integrating the elastic law.                  *)
(*                                                                         *)
(* Sign conventions (as documented/used by deflect): local x from the      *)
(* first to the second node, in 2d local z is "downward" for an element    *)
(* pointing along +X, u = c Ux + s Uz, w = s Ux - c Uz, t = Phiy, local    *)
(* rotation phi = -t; N = EA u', EI phi' = M, V = M', V' = -qz, N' = -qx.  *)
(* Element loads act in local axes (a moment acts on phi).                 *)
(*                                                                         *)
(* A structure St is a record                                              *)
(*   nodes  : sequence of [id, x, y, z]             (numbers as text)      *)
(*   mats   : sequence of [id, E, nu, rho]                                 *)
(*   css    : sequence of [id, kind, par]                                  *)
(*   elems  : sequence of [id, kind, n0, n1, mat, cs, hinges]              *)
(*   dirichlet, neumann : sequences of [node, dof, val]                    *)
(*   links  : sequence of [node, from, to, c, s]                           *)
(*   bag    : element id -> sequence of loads [type, kind, pos, v0, v1]    *)
(***************************************************************************)
EXTENDS LinAlg, Poly, Text, FiniteSets, SequencesExt

DofNames == <<"Ux", "Uz", "Uy", "Phiy", "Phiz", "Phix">>
DofNo(d) == CHOOSE i \in 1..6 : DofNames[i] = d
IsDof(d) == \E i \in 1..6 : DofNames[i] = d

ById(seq, id) == seq[CHOOSE i \in 1..Len(seq) : seq[i].id = id]
HasId(seq, id) == \E i \in 1..Len(seq) : seq[i].id = id

-----------------------------------------------------------------------------
(* Degrees of freedom *)
KindDofs(kind) == CASE kind = "truss2d" -> <<"Ux", "Uz">>
                    [] kind = "truss3d" -> <<"Ux", "Uz", "Uy">>
                    [] kind = "frame2d" -> <<"Ux", "Uz", "Phiy">>
ElemDofs(e) == LET ds == KindDofs(e.kind) IN
  {<<e.n0, ds[i]>> : i \in 1..Len(ds)} \cup {<<e.n1, ds[i]>> : i \in 1..Len(ds)}
AllDofs(St) == UNION {ElemDofs(St.elems[i]) : i \in 1..Len(St.elems)}

(* prescribed degrees of freedom, in the order given (the zero values of inclined supports last) *)
Prescribed(St) == [i \in 1..Len(St.dirichlet) |-> <<St.dirichlet[i].node, St.dirichlet[i].dof>>]
                  \o [i \in 1..Len(St.links) |-> <<St.links[i].node, St.links[i].to>>]

DofLess(a, b) == LET c == StrCmp(a[1], b[1]) IN c < 0 \/ (c = 0 /\ DofNo(a[2]) < DofNo(b[2]))
SortDofs(S) == SetToSortSeq(S, DofLess)
(* the documented order of equations: prescribed ones first, each group sorted *)
DofOrder(St) ==
  LET con == {Prescribed(St)[i] : i \in 1..Len(Prescribed(St))} IN
  SortDofs(con) \o SortDofs(AllDofs(St) \ con)

-----------------------------------------------------------------------------
(* Cross sections *)
CsArea(cs) == IF cs.kind = "rectangle" THEN RMul(RParse(cs.par.b), RParse(cs.par.h)) ELSE RParse(cs.par.A)
CsIyy(cs) == IF cs.kind = "rectangle"
             THEN LET h == RParse(cs.par.h) IN RDiv(RMul(RParse(cs.par.b), RMul(h, RMul(h, h))), 12)
             ELSE RParse(cs.par.Iyy)

(* Numeric form of a load *)
LoadNum(l) == [type |-> l.type, kind |-> l.kind,
               pos |-> IF l.type = "dirac" THEN RParse(l.pos) ELSE R0,
               v0 |-> RParse(l.v0), v1 |-> IF l.type = "linear" THEN RParse(l.v1) ELSE R0]

LocalNames(kind) == IF kind = "frame2d" THEN <<"u0", "u1", "w0", "t0", "w1", "t1">> ELSE <<"u0", "u1">>
(* the local end displacement a hinge on (node, dof) releases; "" if the element does not have it *)
HingeName(e, h) == LET end == IF h.node = e.n0 THEN "0" ELSE IF h.node = e.n1 THEN "1" ELSE "x"
                       c == IF h.dof = "Ux" THEN "u"
                            ELSE IF e.kind = "frame2d" /\ h.dof = "Uz" THEN "w"
                            ELSE IF e.kind = "frame2d" /\ h.dof = "Phiy" THEN "t" ELSE ""
                   IN IF end = "x" \/ c = "" THEN "" ELSE StrCat(c, end)
Released(e) == {HingeName(e, e.hinges[i]) : i \in 1..Len(e.hinges)} \ {""}

(* Numeric form of element k of St *)
ElemNum(St, k) ==
  LET e == St.elems[k]
      a == ById(St.nodes, e.n0)
      b == ById(St.nodes, e.n1)
      dx == RSub(RParse(b.x), RParse(a.x))
      dy == RSub(RParse(b.y), RParse(a.y))
      dz == RSub(RParse(b.z), RParse(a.z))
      L2 == RAdd(RMul(dx, dx), RAdd(RMul(dy, dy), RMul(dz, dz)))
      L == RSqrt(L2)
      E == RParse(ById(St.mats, e.mat).E)
      cs == ById(St.css, e.cs)
  IN [id |-> e.id, kind |-> e.kind, n0 |-> e.n0, n1 |-> e.n1, dx |-> dx, dy |-> dy, dz |-> dz,
      L2 |-> L2, L |-> L, EA |-> RMul(E, CsArea(cs)), EI |-> RMul(E, CsIyy(cs)),
      rel |-> Released(e),
      loads |-> [i \in 1..Len(St.bag[e.id]) |-> LoadNum(St.bag[e.id][i])]]

-----------------------------------------------------------------------------
(* Unknowns: all degrees of freedom, then one per hinged end displacement *)
RECURSIVE HingeSeq(_, _)
HingeSeq(els, k) == IF k > Len(els) THEN <<>>
                    ELSE SetToSeq({<<els[k].id, h>> : h \in els[k].rel}) \o HingeSeq(els, k + 1)
Unknowns(St, els) == SetToSeq(AllDofs(St)) \o HingeSeq(els, 1)
Pos(U, x) == CHOOSE i \in 1..Len(U) : U[i] = x

(* The scaled local end displacement (L u, L w, t) of an element as a linear form in the unknowns *)
LocalForm(el, name, U, n) ==
  IF name \in el.rel THEN UnitVec(n, Pos(U, <<el.id, name>>))
  ELSE LET nd == IF name \in {"u0", "w0", "t0"} THEN el.n0 ELSE el.n1
           set(d, v) == <<Pos(U, <<nd, d>>), v>>
           ts == CASE name \in {"u0", "u1"} /\ el.kind = "truss3d" -> {set("Ux", el.dx), set("Uz", el.dz), set("Uy", el.dy)}
                   [] name \in {"u0", "u1"} -> {set("Ux", el.dx), set("Uz", el.dz)}
                   [] name \in {"w0", "w1"} -> {set("Ux", el.dz), set("Uz", RNeg(el.dx))}
                   [] OTHER -> {set("Phiy", R1)}
       IN TLCEval([i \in 1..n |-> IF \E t \in ts : t[1] = i THEN (CHOOSE t \in ts : t[1] = i)[2] ELSE R0])
(* scaling such that unknown end displacements at hinges are the true ones in Solve *)
FormScale(el, name) == IF name \in {"t0", "t1"} \/ name \in el.rel THEN R1 ELSE RDiv(R1, el.L)

-----------------------------------------------------------------------------
(* Inclined supports: the rotation of the axes (from, to) by the angle with cosine c and sine s;
   several ones compose in the given order.  The k-th one blocks the direction Normal(k). *)
RECURSIVE RotateBack(_, _, _, _)
RotateBack(links, k, v, U) ==
  IF k = 0 THEN v
  ELSE LET l == links[k]
           c == RParse(l.c) s == RParse(l.s)
           i == Pos(U, <<l.node, l.from>>) j == Pos(U, <<l.node, l.to>>)
           vi == RSub(RMul(c, v[i]), RMul(s, v[j]))
           vj == RAdd(RMul(s, v[i]), RMul(c, v[j]))
       IN RotateBack(links, k - 1, TLCEval([m \in 1..Len(v) |-> IF m = i THEN vi ELSE IF m = j THEN vj ELSE v[m]]), U)
Normal(St, k, U, n) == RotateBack(St.links, Len(St.links), UnitVec(n, Pos(U, <<St.links[k].node, St.links[k].to>>)), U)
(* prescribed (non-inclined) directions: the axes are not affected by inclined supports at other dofs *)
ConstraintForms(St, U, n) ==
  [i \in 1..Len(St.dirichlet) |-> UnitVec(n, Pos(U, <<St.dirichlet[i].node, St.dirichlet[i].dof>>))]
  \o [k \in 1..Len(St.links) |-> Normal(St, k, U, n)]
ConstraintValues(St) == [i \in 1..Len(St.dirichlet) |-> RParse(St.dirichlet[i].val)] \o [k \in 1..Len(St.links) |-> R0]

-----------------------------------------------------------------------------
(* Stability: only the zero displacement leaves all elements undeformed and all supports in place.
   (No square roots occur in here, so that this is exact for all rational coordinates.) *)
RigidForms(el, U, n) ==
  LET F(name) == LocalForm(el, name, U, n)
      truss == <<VSubMul(F("u1"), R1, F("u0"))>>
      beam == <<VSubMul(VSubMul(F("w1"), R1, F("w0")), el.L2, F("t0")), VSubMul(F("t1"), R1, F("t0"))>>
  IN IF el.kind = "frame2d" THEN truss \o beam ELSE truss
RECURSIVE AllRigidForms(_, _, _, _)
AllRigidForms(els, k, U, n) == IF k > Len(els) THEN <<>> ELSE RigidForms(els[k], U, n) \o AllRigidForms(els, k + 1, U, n)

Elems(St) == TLCEval([k \in 1..Len(St.elems) |-> ElemNum(St, k)])
Stable(St) ==
  LET els == Elems(St) U == Unknowns(St, els) n == Len(U) IN
  Rank(AllRigidForms(els, 1, U, n) \o ConstraintForms(St, U, n), n) = n

-----------------------------------------------------------------------------
(* Shape functions in x on [0, L] *)
Shape(name, L) ==
  LET i1 == RDiv(R1, L) i2 == RMul(i1, i1) i3 == RMul(i2, i1) IN
  CASE name = "u0" -> <<R1, RNeg(i1)>>
    [] name = "u1" -> <<R0, i1>>
    [] name = "w0" -> <<R1, R0, RMul(-3, i2), RMul(2, i3)>>
    [] name = "t0" -> <<R0, R1, RMul(-2, i1), i2>>
    [] name = "w1" -> <<R0, R0, RMul(3, i2), RMul(-2, i3)>>
    [] name = "t1" -> <<R0, R0, RNeg(i1), i2>>

IsAxial(name) == name \in {"u0", "u1"}
(* virtual work of the internal forces of displacement b on displacement a *)
Stiff(el, a, b) ==
  IF IsAxial(a) # IsAxial(b) THEN R0
  ELSE LET d(p) == IF IsAxial(a) THEN PDiff(p) ELSE PDiff(PDiff(p)) IN
       RMul(IF IsAxial(a) THEN el.EA ELSE el.EI,
            PIntegral(PMul(d(Shape(a, el.L)), d(Shape(b, el.L))), R0, el.L))

(* a distributed load as a polynomial *)
Distribution(l, L) == IF l.type = "constant" THEN <<l.v0>> ELSE <<l.v0, RDiv(RSub(l.v1, l.v0), L)>>
(* virtual work of a load on displacement a *)
LoadWork(el, l, a) ==
  LET sh == Shape(a, el.L) IN
  CASE l.kind = "Ux" /\ ~IsAxial(a) -> R0
    [] l.kind \in {"Uz", "Phiy"} /\ IsAxial(a) -> R0
    [] l.type # "dirac" -> PIntegral(PMul(Distribution(l, el.L), sh), R0, el.L)
    [] l.kind = "Phiy" -> RNeg(RMul(l.v0, PEval(PDiff(sh), l.pos)))
    [] OTHER -> RMul(l.v0, PEval(sh, l.pos))
RECURSIVE LoadWorks(_, _, _)
LoadWorks(el, k, a) == IF k > Len(el.loads) THEN R0 ELSE RAdd(LoadWork(el, el.loads[k], a), LoadWorks(el, k + 1, a))

-----------------------------------------------------------------------------
(* Assembly.  Rows are augmented: n unknowns, m multipliers, right hand side. *)
RECURSIVE SumForms(_, _, _)
SumForms(ks, forms, j) ==  \* sum of ks[j..] * forms[j..]
  IF j > Len(ks) THEN <<>>
  ELSE LET rest == SumForms(ks, forms, j + 1) t == VScale(ks[j], forms[j]) IN IF rest = <<>> THEN t ELSE VAdd(rest, t)

RECURSIVE Scatter(_, _, _)
(* adds form[i] * row to row i of A for all i, for the local displacements from the k-th one on *)
Scatter(A, fs, k) ==
  IF k > Len(fs) THEN A
  ELSE LET f == fs[k].form IN
       Scatter(TLCEval([i \in 1..Len(A) |-> IF i > Len(f) \/ RIsZero(f[i]) THEN A[i] ELSE VSubMul(A[i], RNeg(f[i]), fs[k].row)]), fs, k + 1)

ElemSystem(el, U, n, m) ==
  LET names == LocalNames(el.kind)
      forms == TLCEval([k \in 1..Len(names) |-> VScale(FormScale(el, names[k]), LocalForm(el, names[k], U, n))])
      kk == TLCEval([a \in 1..Len(names) |-> [b \in 1..Len(names) |-> Stiff(el, names[a], names[b])]])
      rr == TLCEval([a \in 1..Len(names) |-> LoadWorks(el, 1, names[a])])
  IN [names |-> names, forms |-> forms, k |-> kk, r |-> rr,
      parts |-> TLCEval([a \in 1..Len(names) |->
                 [form |-> forms[a], row |-> SumForms(kk[a], forms, 1) \o ZeroVec(m) \o <<rr[a]>>]])]

RECURSIVE AssembleFrom(_, _, _)
AssembleFrom(A, sys, k) == IF k > Len(sys) THEN A ELSE AssembleFrom(Scatter(A, sys[k].parts, 1), sys, k + 1)

RECURSIVE SumSeq(_)
SumSeq(s) == IF s = <<>> THEN R0 ELSE RAdd(Head(s), SumSeq(Tail(s)))
NodalLoad(St, x) == LET F == SelectSeq(St.neumann, LAMBDA b : <<b.node, b.dof>> = x) IN
                    SumSeq([i \in 1..Len(F) |-> RParse(F[i].val)])

-----------------------------------------------------------------------------
(* Functions along an element: sequences of [a, b, p] *)
InsideBreaks(el) ==
  LET ps == {el.loads[i].pos : i \in {j \in 1..Len(el.loads) : el.loads[j].type = "dirac"}}
      in == {p \in ps : RLt(R0, p) /\ RLt(p, el.L)}
  IN <<R0>> \o SetToSortSeq(in, LAMBDA a, b : RLt(a, b)) \o <<el.L>>
PointSum(el, kind, x) == \* concentrated loads of this kind at x
  LET F == SelectSeq(el.loads, LAMBDA l : l.type = "dirac" /\ l.kind = kind /\ l.pos = x) IN
  SumSeq([i \in 1..Len(F) |-> F[i].v0])
DistSum(el, kind) ==
  LET F == SelectSeq(el.loads, LAMBDA l : l.type # "dirac" /\ l.kind = kind)
      RECURSIVE S(_)
      S(k) == IF k > Len(F) THEN <<R0>> ELSE PAdd(Distribution(F[k], el.L), S(k + 1))
  IN S(1)

(* integral of the pieces with value v at the beginning and a jump jumps[k] at the begin of piece k *)
RECURSIVE Integrate(_, _, _, _)
Integrate(ps, k, v, jumps) ==
  IF k > Len(ps) THEN <<>>
  ELSE LET p == ps[k]
           v0 == RAdd(v, jumps[k])
           q == PInt(p.p)
           r == PAdd(q, <<RSub(v0, PEval(q, p.a))>>)
       IN <<[a |-> p.a, b |-> p.b, p |-> r]>> \o Integrate(ps, k + 1, PEval(r, p.b), jumps)
MapPieces(ps, f(_)) == TLCEval([k \in 1..Len(ps) |-> [a |-> ps[k].a, b |-> ps[k].b, p |-> f(ps[k].p)]])

(* q: local end displacements, f: forces on the element ends, both by name *)
ElemFunctions(el, q, f) ==
  LET bs == InsideBreaks(el)
      nojump == [k \in 1..(Len(bs) - 1) |-> R0]
      jump(kind) == TLCEval([k \in 1..(Len(bs) - 1) |-> RNeg(PointSum(el, kind, bs[k]))])
      base(p) == [k \in 1..(Len(bs) - 1) |-> [a |-> bs[k], b |-> bs[k + 1], p |-> p]]
      n == Integrate(base(PScale(RInt(-1), DistSum(el, "Ux"))), 1, RNeg(f["u0"]), jump("Ux"))
      u == Integrate(MapPieces(n, LAMBDA p : PScale(RDiv(R1, el.EA), p)), 1, q["u0"], nojump)
  IN IF el.kind # "frame2d" THEN [Nx |-> n, Ux |-> u]
     ELSE LET v == Integrate(base(PScale(RInt(-1), DistSum(el, "Uz"))), 1, RNeg(f["w0"]), jump("Uz"))
              m == Integrate(v, 1, f["t0"], jump("Phiy"))
              phi == Integrate(MapPieces(m, LAMBDA p : PScale(RDiv(R1, el.EI), p)), 1, RNeg(q["t0"]), nojump)
              w == Integrate(MapPieces(phi, LAMBDA p : PScale(RInt(-1), p)), 1, q["w0"], nojump)
          IN [Nx |-> n, Ux |-> u, Vz |-> v, My |-> m, Phiy |-> phi, Uz |-> w]
LastVal(ps) == LET p == ps[Len(ps)] IN PEval(p.p, p.b)

-----------------------------------------------------------------------------
(* The solution of a stable structure: displacement d and support force r per degree of freedom,
   and per element the local end displacements q, the forces f on its ends, and its functions fn. *)
SolveStructure(St) ==
  LET els == Elems(St)
      U == Unknowns(St, els)
      n == Len(U)
      cf == ConstraintForms(St, U, n)
      cv == ConstraintValues(St)
      m == Len(cf)
      sys == TLCEval([k \in 1..Len(els) |-> ElemSystem(els[k], U, n, m)])
      loads == TLCEval([i \in 1..n |-> IF i <= Cardinality(AllDofs(St)) THEN NodalLoad(St, U[i]) ELSE R0])
      top == TLCEval([i \in 1..n |-> ZeroVec(n) \o [k \in 1..m |-> cf[k][i]] \o <<loads[i]>>])
      bottom == TLCEval([k \in 1..m |-> cf[k] \o ZeroVec(m) \o <<cv[k]>>])
      X == Solve(AssembleFrom(top, sys, 1) \o bottom, n + m)
      d == SubSeq(X, 1, n)
      force(i) == RNeg(SumSeq([k \in 1..m |-> RMul(cf[k][i], X[n + k])]))
      elem(k) == LET s == sys[k]
                     idx(name) == CHOOSE a \in 1..Len(s.names) : s.names[a] = name
                     dom == {s.names[a] : a \in 1..Len(s.names)}
                     qs == TLCEval([a \in 1..Len(s.names) |-> VDot(s.forms[a], d)])
                     q == TLCEval([x \in dom |-> qs[idx(x)]])
                     f == TLCEval([x \in dom |-> RSub(VDot(s.k[idx(x)], qs), s.r[idx(x)])])
                 IN [id |-> els[k].id, L |-> els[k].L, q |-> q, f |-> f, fn |-> ElemFunctions(els[k], q, f)]
  IN IF X = <<>> THEN [ok |-> FALSE]
     ELSE [ok |-> TRUE,
           d |-> TLCEval([x \in AllDofs(St) |-> d[Pos(U, x)]]),
           r |-> TLCEval([x \in AllDofs(St) |-> force(Pos(U, x))]),
           el |-> TLCEval([k \in 1..Len(els) |-> elem(k)])]
=============================================================================
