---------------------------- MODULE MC_Transform ----------------------------
(***************************************************************************)
(* The structures of MC_Frame written down differently: a behaviour        *)
(* chooses a structure and a load case as there, then one transformation   *)
(* after another (STEPS of them):                                          *)
(*   1 other names, 2 all lists reversed, 3 lists rotated, 4 shifted in    *)
(*   space, 5 an element reversed, 6 all elements reversed, 7 mirrored,    *)
(*   8 turned by an angle, 9 turned by 90 degrees, 10 axes of space        *)
(*   exchanged, 11 an element divided into two                             *)
(*                                                                         *)
(* Checked: the solution of the transformed structure is the transformed   *)
(* solution.                                                               *)
(* Emitted: both structures, all results read.                             *)
(***************************************************************************)
EXTENDS MC_Frame

Steps == EnvNat("STEPS", 2)
Pick == EnvNat("PICK", 1)
Neg(v) == RText(RNeg(RParse(v)))
Same(seq) == [k \in 1..Len(seq) |-> [k |-> k, rev |-> FALSE, shift |-> R0]]
(* new: names of nodes; el: which part of which element is element j of the new structure *)
Trans(how, St, nodes, el) == [how |-> how, st |-> St, nodes |-> nodes, el |-> el]
Ids(St) == {St.nodes[i].id : i \in 1..Len(St.nodes)}
Keep(St) == [n \in Ids(St) |-> n]
OldIds(St) == SetToSortSeq(Ids(St), LAMBDA a, b : StrCmp(a, b) < 0)

(* Names: in reverse order, and with others in between *)
NewNames == <<"zz", "z", "n10", "n1", "n", "a b", "Z", "9", "10">>
Rename(St) ==
  LET old == OldIds(St) new == [n \in Ids(St) |-> NewNames[CHOOSE i \in 1..Len(old) : old[i] = n]]
      at(b) == [b EXCEPT !.node = new[@]]
      elem(e) == [e EXCEPT !.id = StrCat("e", @), !.n0 = new[@], !.n1 = new[@], !.hinges = MapSeq(@, LAMBDA h : at(h))]
  IN Trans(<<"rename">>,
       [St EXCEPT !.nodes = MapSeq(@, LAMBDA n : [n EXCEPT !.id = new[@]]), !.elems = MapSeq(@, LAMBDA e : elem(e)),
                  !.dirichlet = MapSeq(@, LAMBDA b : at(b)), !.neumann = MapSeq(@, LAMBDA b : at(b)), !.links = MapSeq(@, LAMBDA l : at(l)),
                  !.bag = [e \in {StrCat("e", x) : x \in DOMAIN @} |-> @[CHOOSE x \in DOMAIN @ : StrCat("e", x) = e]]],
       new, Same(St.elems))
Rotated1(seq) == IF Len(seq) < 2 THEN seq ELSE Tail(seq) \o <<Head(seq)>>
(* inclined supports at one node depend on their order *)
Separate(St) == \A i, j \in 1..Len(St.links) : i # j => St.links[i].node # St.links[j].node
Reorder(St, f(_), how) ==
  LET idx == f([k \in 1..Len(St.elems) |-> k]) IN
  Trans(<<how>>, [St EXCEPT !.nodes = f(@), !.mats = f(@), !.css = f(@), !.elems = f(@), !.dirichlet = f(@), !.neumann = f(@),
                        !.links = IF Separate(St) THEN f(@) ELSE @,
                        !.bag = [e \in DOMAIN @ |-> f(@[e])]],
        Keep(St), [j \in 1..Len(idx) |-> [k |-> idx[j], rev |-> FALSE, shift |-> R0]])
Plus(v, x) == RText(RAdd(RParse(v), RParse(x)))
Shift(St) == Trans(<<"shift">>, [St EXCEPT !.nodes = MapSeq(@, LAMBDA n : [n EXCEPT !.x = Plus(@, "-5/2"), !.y = Plus(@, "3"), !.z = Plus(@, "7")])], Keep(St), Same(St.elems))

LengthOf(St, e) == LET a == ById(St.nodes, e.n0) b == ById(St.nodes, e.n1) sq(s, t) == LET d == RSub(RParse(s), RParse(t)) IN RMul(d, d) IN
  RSqrt(RAdd(sq(a.x, b.x), RAdd(IF e.kind = "truss3d" THEN sq(a.y, b.y) ELSE R0, sq(a.z, b.z))))
ReversedLoad(l, L) ==
  LET v(x) == IF l.kind \in {"Ux", "Uz"} THEN Neg(x) ELSE x IN
  CASE l.type = "dirac" -> [l EXCEPT !.pos = RText(RSub(L, RParse(@))), !.v0 = v(@)]
    [] l.type = "linear" -> [l EXCEPT !.v0 = v(l.v1), !.v1 = v(l.v0)]
    [] OTHER -> [l EXCEPT !.v0 = v(@)]
RevElems(St, K) ==
  LET flip(e) == [e EXCEPT !.n0 = e.n1, !.n1 = e.n0] IN
  Trans(<<"reverse">>, [St EXCEPT !.elems = [k \in 1..Len(@) |-> IF k \in K THEN flip(@[k]) ELSE @[k]],
                   !.bag = [x \in DOMAIN @ |-> LET k == CHOOSE j \in 1..Len(St.elems) : St.elems[j].id = x IN
                              IF k \in K THEN MapSeq(@[x], LAMBDA l : ReversedLoad(l, LengthOf(St, St.elems[k]))) ELSE @[x]]],
        Keep(St), [k \in 1..Len(St.elems) |-> [k |-> k, rev |-> k \in K, shift |-> R0]])

Flips(d) == d \in {"Ux", "Phiy", "Phiz"}
Mirror(St) ==
  LET bc(b) == IF Flips(b.dof) THEN [b EXCEPT !.val = Neg(@)] ELSE b
      link(l) == IF l.from = "Ux" \/ l.to = "Ux" THEN [l EXCEPT !.s = Neg(@)] ELSE l
      load(e, l) == IF e.kind = "frame2d" /\ l.kind \in {"Uz", "Phiy"}
                    THEN IF l.type = "linear" THEN [l EXCEPT !.v0 = Neg(@), !.v1 = Neg(@)] ELSE [l EXCEPT !.v0 = Neg(@)] ELSE l
  IN Trans(<<"mirror">>, [St EXCEPT !.nodes = MapSeq(@, LAMBDA n : [n EXCEPT !.x = Neg(@)]),
                      !.dirichlet = MapSeq(@, LAMBDA b : bc(b)), !.neumann = MapSeq(@, LAMBDA b : bc(b)), !.links = MapSeq(@, LAMBDA l : link(l)),
                      !.bag = [x \in DOMAIN @ |-> MapSeq(@[x], LAMBDA l : load(ById(St.elems, x), l))]],
           Keep(St), Same(St.elems))

(* in the plane: x' = c x - s z, z' = s x + c z *)
Turn(St, co, si) ==
  LET C == RParse(co) S == RParse(si)
      first(x, z) == RText(RSub(RMul(C, RParse(x)), RMul(S, RParse(z))))
      second(x, z) == RText(RAdd(RMul(S, RParse(x)), RMul(C, RParse(z))))
      val(list, n, d) == LET F == SelectSeq(list, LAMBDA b : b.node = n /\ b.dof = d) IN RText(SumSeq(MapSeq(F, LAMBDA b : RParse(b.val))))
      has(n, d) == \E i \in 1..Len(St.dirichlet) : St.dirichlet[i].node = n /\ St.dirichlet[i].dof = d
      \* a direction that moves can't be turned, so that it no longer does
      inPlane(b) == b.dof \in {"Ux", "Uz"}
      moved(n) == <<[node |-> n, dof |-> "Ux", val |-> first(val(St.dirichlet, n, "Ux"), val(St.dirichlet, n, "Uz"))],
                    [node |-> n, dof |-> "Uz", val |-> second(val(St.dirichlet, n, "Ux"), val(St.dirichlet, n, "Uz"))]>>
      pushed(n) == <<[node |-> n, dof |-> "Ux", val |-> first(val(St.neumann, n, "Ux"), val(St.neumann, n, "Uz"))],
                     [node |-> n, dof |-> "Uz", val |-> second(val(St.neumann, n, "Ux"), val(St.neumann, n, "Uz"))]>>
      both == SelectSeq(OldIds(St), LAMBDA n : has(n, "Ux") /\ has(n, "Uz"))
      one == SelectSeq(OldIds(St), LAMBDA n : has(n, "Ux") # has(n, "Uz"))
      lone(n) == IF has(n, "Uz") THEN [node |-> n, from |-> "Ux", to |-> "Uz", c |-> co, s |-> si]
                 ELSE [node |-> n, from |-> "Ux", to |-> "Uz", c |-> si, s |-> Neg(co)]
      turned(l) == LET f == IF l.from = "Ux" THEN S ELSE RNeg(S) lc == RParse(l.c) ls == RParse(l.s) IN
                   [l EXCEPT !.c = RText(RSub(RMul(lc, C), RMul(ls, f))), !.s = RText(RAdd(RMul(ls, C), RMul(lc, f)))]
      pushes == SelectSeq(OldIds(St), LAMBDA n : \E i \in 1..Len(St.neumann) : St.neumann[i].node = n /\ inPlane(St.neumann[i]))
  IN Trans(<<"turn", co, si>>, [St EXCEPT
        !.nodes = MapSeq(@, LAMBDA n : [n EXCEPT !.x = first(n.x, n.z), !.z = second(n.x, n.z)]),
        !.dirichlet = SelectSeq(@, LAMBDA b : ~inPlane(b)) \o FlattenSeq(MapSeq(both, moved)),
        !.neumann = SelectSeq(@, LAMBDA b : ~inPlane(b)) \o FlattenSeq(MapSeq(pushes, pushed)),
        !.links = MapSeq(@, LAMBDA l : turned(l)) \o MapSeq(one, LAMBDA n : lone(n))],
       Keep(St), Same(St.elems))
CanTurn(St) == /\ Plane(St)
               /\ \A i \in 1..Len(St.dirichlet) : LET b == St.dirichlet[i] IN
                    b.dof = "Phiy" \/ RIsZero(RParse(b.val)) \/ \E j \in 1..Len(St.dirichlet) : j # i /\ St.dirichlet[j].node = b.node /\ St.dirichlet[j].dof \in {"Ux", "Uz"}

(* x becomes y, y becomes z, z becomes x *)
NextAxis == [Ux |-> "Uy", Uy |-> "Uz", Uz |-> "Ux"]
Exchange(St) ==
  LET bc(b) == [b EXCEPT !.dof = NextAxis[@]] link(l) == [l EXCEPT !.from = NextAxis[@], !.to = NextAxis[@]] IN
  Trans(<<"axes">>, [St EXCEPT !.nodes = MapSeq(@, LAMBDA n : [id |-> n.id, y |-> n.x, z |-> n.y, x |-> n.z]),
                 !.dirichlet = MapSeq(@, LAMBDA b : bc(b)), !.neumann = MapSeq(@, LAMBDA b : bc(b)), !.links = MapSeq(@, LAMBDA l : link(l))],
        Keep(St), Same(St.elems))

(* an element divided at two fifths of its length, where no concentrated load is; a bar needs something that keeps the
   new node in place, so that only elements with bending are divided *)
Divide(St, k) ==
  LET e == St.elems[k] a == ById(St.nodes, e.n0) b == ById(St.nodes, e.n1) L == LengthOf(St, e)
      f == RParse("2/5") at == RMul(f, L)
      mid(s, t) == RText(RAdd(RParse(s), RMul(f, RSub(RParse(t), RParse(s)))))
      m == StrCat("m", e.id)
      e1 == [e EXCEPT !.id = StrCat(@, "1"), !.n1 = m, !.hinges = SelectSeq(@, LAMBDA h : h.node = e.n0)]
      e2 == [e EXCEPT !.id = StrCat(@, "2"), !.n0 = m, !.hinges = SelectSeq(@, LAMBDA h : h.node = e.n1)]
      val(l) == RText(RAdd(RParse(l.v0), RMul(f, RSub(RParse(l.v1), RParse(l.v0)))))
      part(l, first) ==
        CASE l.type = "dirac" -> IF first THEN IF RLt(RParse(l.pos), at) THEN <<[l EXCEPT !.id = StrCat(@, "i")]>> ELSE <<>>
                                 ELSE IF RLt(at, RParse(l.pos)) THEN <<[l EXCEPT !.id = StrCat(@, "j"), !.pos = RText(RSub(RParse(@), at))]>> ELSE <<>>
          [] l.type = "linear" -> IF first THEN <<[l EXCEPT !.id = StrCat(@, "i"), !.v1 = val(l)]>> ELSE <<[l EXCEPT !.id = StrCat(@, "j"), !.v0 = val(l)]>>
          [] OTHER -> <<[l EXCEPT !.id = StrCat(@, IF first THEN "i" ELSE "j")]>>
      bag1 == FlattenSeq(MapSeq(St.bag[e.id], LAMBDA l : part(l, TRUE))) bag2 == FlattenSeq(MapSeq(St.bag[e.id], LAMBDA l : part(l, FALSE)))
  IN Trans(<<"divide">>, [St EXCEPT !.nodes = Append(@, [id |-> m, x |-> mid(a.x, b.x), y |-> mid(a.y, b.y), z |-> mid(a.z, b.z)]),
                      !.elems = SubSeq(@, 1, k - 1) \o <<e1>> \o SubSeq(@, k + 1, Len(@)) \o <<e2>>,
                      !.bag = [x \in (DOMAIN @ \ {e.id}) \cup {e1.id, e2.id} |-> IF x = e1.id THEN bag1 ELSE IF x = e2.id THEN bag2 ELSE @[x]]],
           Keep(St), Append(Same(St.elems), [k |-> k, rev |-> FALSE, shift |-> at]))
CanDivide(St, k) == /\ St.elems[k].kind = "frame2d"
                    /\ \A i \in 1..Len(St.bag[St.elems[k].id]) : LET l == St.bag[St.elems[k].id][i] IN
                         l.type = "dirac" => RParse(l.pos) # RMul(RParse("2/5"), LengthOf(St, St.elems[k]))

Kinds == 11
Possible(St, k, s) ==
  CASE k = 8 \/ k = 9 -> CanTurn(St)
    [] k = 10 -> Space(St)
    [] k = 11 -> CanDivide(St, Draw(s, 31, Len(St.elems)) + 1)
    [] k = 6 -> Len(St.elems) > 1
    [] OTHER -> TRUE
Apply(St, k, s) ==
  TLCEval(CASE k = 1 -> Rename(St)
    [] k = 2 -> Reorder(St, Reverse, "backwards")
    [] k = 3 -> Reorder(St, Rotated1, "rotated")
    [] k = 4 -> Shift(St)
    [] k = 5 -> RevElems(St, {Draw(s, 30, Len(St.elems)) + 1})
    [] k = 6 -> RevElems(St, 1..Len(St.elems))
    [] k = 7 -> Mirror(St)
    [] k = 8 -> LET a == Slopes[Draw(s, 32, 5) + 1] IN Turn(St, a[1], a[2])
    [] k = 9 -> Turn(St, "0", IF Draw(s, 33, 2) = 0 THEN "1" ELSE "-1")
    [] k = 10 -> Exchange(St)
    [] k = 11 -> Divide(St, Draw(s, 31, Len(St.elems)) + 1))
(* the structure after all transformations of s = <<shape, variant, case, t1, t2, ..>> *)
RECURSIVE After(_)
After(s) == IF Len(s) = 3 THEN Case(s, s[3]) ELSE Apply(After(SubSeq(s, 1, Len(s) - 1)), s[Len(s)], s).st

(* names of loads are different in the two problems *)
Tagged(St, tag) == [St EXCEPT !.bag = [e \in DOMAIN @ |-> MapSeq(@[e], LAMBDA l : [l EXCEPT !.id = StrCat(tag, @)])]]
SolveOps(St, t) ==
  << [op |-> "mk", p |-> StrCat("P", t), st |-> ForDriver(Tagged(St, t))], [op |-> "layout", p |-> StrCat("P", t), l |-> StrCat("L", t)],
     [op |-> "solve", p |-> StrCat("P", t), l |-> StrCat("L", t), r |-> StrCat("R", t), s |-> "S"], [op |-> "all", r |-> StrCat("R", t)],
     [op |-> "interpall", r |-> StrCat("R", t), p |-> StrCat("P", t), elems |-> MapSeq(St.elems, LAMBDA e : e.id), tol |-> "1e-12"] >>
More(s) == CASE Len(s) = 0 -> Len(Shapes) [] Len(s) = 1 -> Variants [] Len(s) = 2 -> Cases [] Len(s) < 3 + Steps -> Kinds [] OTHER -> 0
TransformNext == \E k \in 1..More(c) :
  /\ c' = Append(c, k)
  /\ Holds(Len(c') = 2 => Worth(c') /\ Stable(Bare(c')))
  /\ Holds(Len(c') >= 4 => OneIn(c', IF Len(c') = 4 THEN 1 ELSE Pick) /\ Possible(After(c), k, c'))
  /\ IF Len(c') = 3 + Steps
     THEN Emit([ops |-> SolveOps(After(SubSeq(c', 1, 3)), "0") \o SolveOps(After(c'), "1")])
     ELSE TRUE

-----------------------------------------------------------------------------
(* the same vector (displacements or support forces) in the new structure, at the nodes of the old one *)
MapVec(T, v, x) ==
  CASE T.how[1] = "mirror" -> IF Flips(x[2]) THEN RNeg(v[x]) ELSE v[x]
    [] T.how[1] = "axes" -> LET back == CHOOSE d \in DOMAIN NextAxis : NextAxis[d] = x[2] IN v[<<x[1], back>>]
    [] T.how[1] = "turn" ->
         LET C == RParse(T.how[2]) S == RParse(T.how[3]) X == v[<<x[1], "Ux">>] Z == v[<<x[1], "Uz">>] IN
         CASE x[2] = "Ux" -> RSub(RMul(C, X), RMul(S, Z)) [] x[2] = "Uz" -> RAdd(RMul(S, X), RMul(C, Z)) [] OTHER -> v[x]
    [] OTHER -> v[x]
SignOf(T, j, f) ==
  IF T.el[j].rev THEN IF f \in {"Ux", "Uz", "My"} THEN -1 ELSE 1
  ELSE IF T.how[1] = "mirror" /\ f \in {"Uz", "Vz", "My", "Phiy"} THEN -1 ELSE 1
Carries(T, sol, sol2) ==
  LET L(k) == sol.el[k].L IN
  /\ \A x \in DOMAIN sol.d : LET y == <<T.nodes[x[1]], x[2]>> IN sol2.d[y] = MapVec(T, sol.d, x) /\ sol2.r[y] = MapVec(T, sol.r, x)
  /\ \A j \in 1..Len(T.el) : LET o == T.el[j] IN
       /\ DOMAIN sol2.el[j].fn = DOMAIN sol.el[o.k].fn
       /\ \A f \in DOMAIN sol2.el[j].fn : \A i \in 1..Len(sol2.el[j].fn[f]) :
            LET p == sol2.el[j].fn[f][i] IN
            \A m \in 1..7 : LET x == RAdd(p.a, RMul(RDiv(RInt(m), RInt(8)), RSub(p.b, p.a)))
                                y == RAdd(o.shift, IF o.rev THEN RSub(L(o.k), x) ELSE x) IN
                            PEval(p.p, x) = RMul(SignOf(T, j, f), PEval(PieceAt(sol.el[o.k].fn[f], y).p, y))
TransformTheorems ==
  Len(c) >= 4 =>
    LET St == After(SubSeq(c, 1, Len(c) - 1)) T == Apply(St, c[Len(c)], c) sol == SolveStructure(St) sol2 == SolveStructure(T.st) IN
    IF sol.ok /\ Stable(T.st) /\ sol2.ok /\ Carries(T, sol, sol2) THEN TRUE ELSE PrintT(<<"BROKEN", c, T.how, sol.ok, sol2.ok>>) /\ FALSE
TransformSpec == Init /\ [][TransformNext]_c
=============================================================================
