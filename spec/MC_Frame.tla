------------------------------ MODULE MC_Frame ------------------------------
(***************************************************************************)
(* Structures of several elements: continuous beams, frames, trusses in    *)
(* the plane and in space, and mixed ones.  A behaviour chooses a shape, a *)
(* variant (hinges, supports, inclined supports) and a load case (element  *)
(* loads, nodal loads, movements of supports, everything at once).         *)
(* Variants are numbered combinations, enumerated in an order that depends *)
(* on SEED; VARIANTS of them are explored per shape, the stable ones are   *)
(* continued.                                                              *)
(*                                                                         *)
(* Checked: the theorems in Theory, including reciprocity of all pairs of  *)
(* load cases (Betti) and superposition.                                   *)
(* LINKS: 0 none, 1 some, 2 always inclined supports.  HINGES likewise.    *)
(* DOCS=1: written as documents; checked: their meaning is the structure.  *)
(***************************************************************************)
EXTENDS Documents
VARIABLE c

Shapes == Frames \o Trusses
Sh(s) == Shapes[s[1]]
Variants == EnvNat("VARIANTS", 20)
LinkRate == EnvNat("LINKS", 1)
HingeRate == EnvNat("HINGES", 1)
Two(s) == SubSeq(s, 1, 2)

SpacePairs == << <<"Ux", "Uy">>, <<"Uy", "Uz">>, <<"Uz", "Ux">>, <<"Ux", "Uz">> >>
PlanePairs == << <<"Ux", "Uz">>, <<"Uz", "Ux">> >>
LinkAt(s, salt) ==
  LET n == Sh(s).nodes[Draw(s, salt, Len(Sh(s).nodes)) + 1].id
      pairs == IF Sh(s).bars[1].kind = "truss3d" THEN SpacePairs ELSE PlanePairs
      pr == pairs[Draw(s, salt + 1, Len(pairs)) + 1]
      a == Slopes[Draw(s, salt + 2, Len(Slopes)) + 1]
  IN [node |-> n, from |-> pr[1], to |-> pr[2], c |-> a[1], s |-> a[2]]
LinksOf(s) ==
  LET t == Two(s) l1 == LinkAt(t, 40) l2 == LinkAt(t, 50) IN
  CASE LinkRate = 0 \/ (LinkRate = 1 /\ Draw(t, 39, 3) # 0) -> <<>>
    [] l1.node = l2.node /\ (l1.to = l2.to \/ Sh(s).bars[1].kind # "truss3d") -> <<l1>>
    [] Draw(t, 38, 2) = 0 -> <<l1>>
    [] OTHER -> <<l1, l2>>
InLinks(s) == UNION {{<<LinksOf(s)[k].node, LinksOf(s)[k].from>>, <<LinksOf(s)[k].node, LinksOf(s)[k].to>>} : k \in 1..Len(LinksOf(s))}
Dofs(s) == ShapeDofs(Sh(s))
(* a clamped node now and then, single degrees of freedom otherwise *)
FixedOf(s) ==
  LET t == Two(s) D == Dofs(s) clamp == IF Draw(t, 3, 2) = 0 THEN Sh(s).nodes[Draw(t, 4, Len(Sh(s).nodes)) + 1].id ELSE ""
      rate == 2 + Draw(t, 5, 2)
  IN {D[i] : i \in {j \in 1..Len(D) : D[j] \notin InLinks(s) /\ (D[j][1] = clamp \/ Draw(t, 100 + j, rate) = 0)}}
HingesOf(s) ==
  LET t == Two(s) bars == Sh(s).bars IN
  [k \in 1..Len(bars) |->
     IF HingeRate = 0 \/ (HingeRate = 1 /\ Draw(t, 60 + k, 3) # 0) THEN {}
     ELSE LET H == HingeSets(bars[k].kind) IN H[Draw(t, 70 + k, Len(H)) + 1]]
NoLoads(s) == [k \in 1..Len(Sh(s).bars) |-> <<>>]
Bare(s) == Structure(Sh(s), HingesOf(s), Draw(Two(s), 2, 4), Supports(FixedOf(s), "none"), LinksOf(s), NoLoads(s), <<>>)

Cases == 4
ElemLoads(s, salt) ==
  LET t == Two(s) IN [k \in 1..Len(Sh(s).bars) |-> LET B == BarLoads(Sh(s), k) IN B[Draw(t, salt + k, Len(B)) + 1]]
Nodal(s, salt) ==
  LET t == Two(s) D == Dofs(s) F == SelectSeq(D, LAMBDA x : Draw(t, salt + DofNo(x[2]) + 7 * StrCmp(x[1], "M"), 3) # 0) IN
  [i \in 1..Len(F) |-> [node |-> F[i][1], dof |-> F[i][2], val |-> <<"2", "-3", "1/2", "7", "-5/4">>[Draw(t, salt + 20 + i, 5) + 1]]]
Moves(s) == Supports(FixedOf(s), Movings[2 + Draw(Two(s), 6, 3)])
Case(s, k) ==
  LET St == Bare(s) with(ls) == Structure(Sh(s), HingesOf(s), Draw(Two(s), 2, 4), St.dirichlet, St.links, ls, <<>>) IN
  TLCEval(CASE k = 1 -> with(ElemLoads(s, 200))
    [] k = 2 -> [St EXCEPT !.neumann = Nodal(s, 300)]
    [] k = 3 -> [St EXCEPT !.dirichlet = Moves(s)]
    [] k = 4 -> [with(ElemLoads(s, 200)) EXCEPT !.neumann = Nodal(s, 300), !.dirichlet = Moves(s)])

Docs == Env("DOCS", "0") = "1"
Written(s) == Trim(Decimals(Case(s, s[3])))
Style(s) == Styles[Draw(s, 80, Len(Styles)) + 1]

Worth(s) == FixedOf(s) \cup InLinks(s) # {} /\ Cardinality(PrescribedSet(Bare(s))) < Len(Dofs(s))
Init == c = <<>>
Options(s) == CASE Len(s) = 0 -> Len(Shapes) [] Len(s) = 1 -> Variants [] Len(s) = 2 -> Cases [] OTHER -> 0
Next == \E k \in 1..Options(c) :
  /\ c' = Append(c, k)
  /\ Holds(Len(c') = 2 => Worth(c') /\ Stable(Bare(c')))
  /\ IF Len(c') = 3
     THEN Emit(IF Docs THEN [ops |-> ParseOps(DocOf(Written(c'), Style(c')), "") \o <<InterpOp(Written(c'), "")>>]
               ELSE [st |-> ForDriver(Case(c', c'[3])), case |-> c'[3]])
     ELSE TRUE

-----------------------------------------------------------------------------
(* the four load cases of one structure: the last one is the sum of the others *)
Superposed(sols) ==
  LET sum(f(_)) == RAdd(f(sols[1]), RAdd(f(sols[2]), f(sols[3]))) IN
  /\ \A x \in DOMAIN sols[4].d : sols[4].d[x] = sum(LAMBDA q : q.d[x]) /\ sols[4].r[x] = sum(LAMBDA q : q.r[x])
  /\ \A k \in 1..Len(sols[4].el) : \A n \in DOMAIN sols[4].el[k].q :
        /\ sols[4].el[k].q[n] = sum(LAMBDA q : q.el[k].q[n])
        /\ sols[4].el[k].f[n] = sum(LAMBDA q : q.el[k].f[n])
Theorems ==
  /\ Len(c) = 3 /\ Docs => \A k \in 1..Len(Styles) : RoundTrip(Written(c), Styles[k])
  /\ Len(c) = 2 /\ ~Docs =>
    LET St == TLCEval([k \in 1..Cases |-> Case(c, k)]) sols == TLCEval([k \in 1..Cases |-> SolveStructure(St[k])]) IN
    /\ \A k \in 1..Cases : sols[k].ok
    /\ \A k \in 1..Cases : LET b == Broken(St[k], sols[k]) IN IF b = {} THEN TRUE ELSE PrintT(<<"BROKEN", k, b, St[k]>>) /\ FALSE
    /\ Superposed(sols)
    /\ \A i, j \in 1..Cases : i < j => Betti(St[i], sols[i], St[j], sols[j])
Spec == Init /\ [][Next]_c
=============================================================================
