------------------------------ MODULE Catalogue ------------------------------
(***************************************************************************)
(* Structures for the models: shapes, sets of hinges, supports and loads,  *)
(* to be combined, and their description as scenarios for the driver.      *)
(***************************************************************************)
EXTENDS Theory, IOUtils, Json

Env(name, default) == IF name \in DOMAIN IOEnv THEN IOEnv[name] ELSE default
EnvNat(name, default) == IF name \in DOMAIN IOEnv THEN atoi(IOEnv[name]) ELSE default
Seed == EnvNat("SEED", 1)
RECURSIVE Hash(_, _)
Hash(c, i) == IF i = 0 THEN 7919 + 31 * Seed ELSE (Hash(c, i - 1) * 211 + c[i] * 7 + 13) % 104729
(* one in n, which ones depends on the seed *)
OneIn(c, n) == IF n <= 1 THEN TRUE ELSE (Hash(c, Len(c)) + Seed) % n = 0
(* conditions in actions, which TLC would otherwise take apart at every disjunction *)
Holds(condition) == condition = TRUE
(* pseudo-random number in 0..(n-1) *)
Draw(c, salt, n) == (Hash(Append(c, salt), Len(c) + 1) \div 3) % n

Node(id, x, y, z) == [id |-> id, x |-> x, y |-> y, z |-> z]
Bar(kind, n0, n1) == [kind |-> kind, n0 |-> n0, n1 |-> n1]

(* two nodes *)
BeamEnds == << <<"2", "0">>, <<"0", "-3">>, <<"3", "4">>, <<"-4", "3">>, <<"-5/2", "-6">>, <<"8", "-15">>, <<"1", "1">> >>
BeamShape(i) == [nodes |-> <<Node("A", "0", "0", "0"), Node("B", BeamEnds[i][1], "0", BeamEnds[i][2])>>,
                 bars |-> <<Bar("frame2d", "A", "B")>>]
TrussEnds == << <<"3", "-4">>, <<"0", "2">>, <<"-1", "0">>, <<"5", "12">> >>
TrussShape(i) == [nodes |-> <<Node("A", "1", "0", "1"), Node("B", RText(RAdd(RParse(TrussEnds[i][1]), R1)), "0", RText(RAdd(RParse(TrussEnds[i][2]), R1)))>>,
                  bars |-> <<Bar("truss2d", "A", "B")>>]
SpaceEnds == << <<"1", "2", "2">>, <<"-2", "3", "6">>, <<"0", "4", "0">>, <<"4", "0", "-3">> >>
SpaceShape(i) == [nodes |-> <<Node("A", "0", "0", "0"), Node("B", SpaceEnds[i][1], SpaceEnds[i][2], SpaceEnds[i][3])>>,
                  bars |-> <<Bar("truss3d", "A", "B")>>]

(* more of them *)
Frames == <<
  \* continuous beam
  [nodes |-> <<Node("A", "0", "0", "0"), Node("B", "2", "0", "0"), Node("C", "5", "0", "0")>>,
   bars |-> <<Bar("frame2d", "A", "B"), Bar("frame2d", "B", "C")>>],
  \* bent, one element running backwards
  [nodes |-> <<Node("C", "0", "0", "0"), Node("A", "3", "0", "4"), Node("B", "7", "0", "1")>>,
   bars |-> <<Bar("frame2d", "C", "A"), Bar("frame2d", "B", "A")>>],
  \* portal
  [nodes |-> <<Node("A", "0", "0", "0"), Node("B", "0", "0", "3"), Node("C", "4", "0", "3"), Node("D", "4", "0", "0")>>,
   bars |-> <<Bar("frame2d", "A", "B"), Bar("frame2d", "B", "C"), Bar("frame2d", "D", "C")>>],
  \* beam with a tie
  [nodes |-> <<Node("a", "0", "0", "0"), Node("b", "4", "0", "0"), Node("c", "0", "0", "3")>>,
   bars |-> <<Bar("frame2d", "a", "b"), Bar("truss2d", "c", "b")>>],
  \* closed triangle of frames and bars
  [nodes |-> <<Node("1", "0", "0", "0"), Node("10", "4", "0", "3"), Node("2", "8", "0", "0")>>,
   bars |-> <<Bar("frame2d", "1", "10"), Bar("frame2d", "10", "2"), Bar("truss2d", "2", "1")>>],
  \* three beams at one node
  [nodes |-> <<Node("M", "0", "0", "0"), Node("L", "-3", "0", "0"), Node("R", "4", "0", "3"), Node("T", "0", "0", "5")>>,
   bars |-> <<Bar("frame2d", "L", "M"), Bar("frame2d", "M", "R"), Bar("frame2d", "T", "M")>>],
  \* two elements side by side, and two nodes at the same place
  [nodes |-> <<Node("C", "3", "0", "4"), Node("A", "0", "0", "0"), Node("B", "3", "0", "4")>>,
   bars |-> <<Bar("frame2d", "A", "B"), Bar("truss2d", "B", "A"), Bar("frame2d", "A", "C")>>]
>>
Trusses == <<
  [nodes |-> <<Node("A", "0", "0", "0"), Node("B", "6", "0", "0"), Node("C", "3", "0", "4")>>,
   bars |-> <<Bar("truss2d", "A", "B"), Bar("truss2d", "B", "C"), Bar("truss2d", "A", "C")>>],
  [nodes |-> <<Node("A", "0", "0", "0"), Node("B", "4", "0", "0"), Node("C", "0", "0", "3"), Node("D", "4", "0", "3")>>,
   bars |-> <<Bar("truss2d", "A", "B"), Bar("truss2d", "A", "C"), Bar("truss2d", "B", "C"), Bar("truss2d", "D", "C"), Bar("truss2d", "B", "D"), Bar("truss2d", "D", "A")>>],
  [nodes |-> <<Node("O", "0", "0", "0"), Node("P", "1", "2", "2"), Node("Q", "-2", "3", "6"), Node("R", "4", "0", "-3")>>,
   bars |-> <<Bar("truss3d", "O", "P"), Bar("truss3d", "Q", "O"), Bar("truss3d", "O", "R")>>],
  [nodes |-> <<Node("t", "0", "0", "12"), Node("u", "9", "0", "0"), Node("v", "-4", "3", "0"), Node("w", "0", "-5", "0"), Node("x", "0", "16", "0")>>,
   bars |-> <<Bar("truss3d", "t", "u"), Bar("truss3d", "t", "v"), Bar("truss3d", "w", "t"), Bar("truss3d", "t", "x")>>]
>>

-----------------------------------------------------------------------------
BendingSets == << {}, {"t0"}, {"t1"}, {"t0", "t1"}, {"w0"}, {"w1"}, {"t0", "w1"}, {"w0", "t1"} >>
AxialSets == << {}, {"u0"}, {"u1"} >>
FrameHingeSets == [k \in 1..24 |-> BendingSets[((k - 1) % 8) + 1] \cup AxialSets[((k - 1) \div 8) + 1]]
HingeSets(kind) == IF kind = "frame2d" THEN FrameHingeSets ELSE AxialSets
HingeDof(h) == CASE h \in {"u0", "u1"} -> "Ux" [] h \in {"w0", "w1"} -> "Uz" [] OTHER -> "Phiy"
HingeList2(bar, hs) == LET s == SetToSeq(hs) IN
  [i \in 1..Len(s) |-> [node |-> IF s[i] \in {"u0", "w0", "t0"} THEN bar.n0 ELSE bar.n1, dof |-> HingeDof(s[i])]]

ElemId(bar) == StrCat(bar.n0, bar.n1)
Mats == << [id |-> "m0", E |-> "30", nu |-> "0.3", rho |-> "1"], [id |-> "m1", E |-> "7", nu |-> "0.2", rho |-> "0"] >>
Sects == << [id |-> "c0", kind |-> "rectangle", par |-> [b |-> "2", h |-> "3/2"]],
            [id |-> "c1", kind |-> "constants", par |-> [A |-> "5", Iyy |-> "4/3", Izz |-> "1"]] >>
(* hs: a set of hinges per bar; pick: a number that chooses materials *)
ShapeElems(sh, hs, pick) ==
  [k \in 1..Len(sh.bars) |-> [id |-> ElemId(sh.bars[k]), kind |-> sh.bars[k].kind, n0 |-> sh.bars[k].n0, n1 |-> sh.bars[k].n1,
                              mat |-> Mats[((pick + k) % 2) + 1].id, cs |-> Sects[((pick + k \div 2) % 2) + 1].id,
                              hinges |-> HingeList2(sh.bars[k], hs[k])]]
ShapeDofs(sh) == SortDofs(AllDofs([elems |-> [k \in 1..Len(sh.bars) |-> sh.bars[k]]]))

(* bit k of m *)
RECURSIVE Bit(_, _)
Bit(m, k) == IF k = 0 THEN m % 2 = 1 ELSE Bit(m \div 2, k - 1)
RECURSIVE Pow2(_)
Pow2(n) == IF n = 0 THEN 1 ELSE 2 * Pow2(n - 1)
Subset(seq, mask) == {seq[i] : i \in {j \in 1..Len(seq) : Bit(mask, j - 1)}}
MovementOf(x, i) == IF x[2] = "Phiy" THEN <<"0.02", "-0.01", "0.005">>[(i % 3) + 1] ELSE <<"0.1", "-0.25", "0.05", "1/30">>[(i % 4) + 1]
(* which: "none", "all", "odd", "first" of the supports move *)
Supports(fixed, which) ==
  LET s == SortDofs(fixed) IN
  [i \in 1..Len(s) |-> [node |-> s[i][1], dof |-> s[i][2],
      val |-> IF which = "all" \/ (which = "odd" /\ i % 2 = 1) \/ (which = "first" /\ i = 1) THEN MovementOf(s[i], i) ELSE "0"]]
Movings == <<"none", "all", "odd", "first">>

Part(sh, k, f) == \* f times the length of bar k, as text
  LET a == ById(sh.nodes, sh.bars[k].n0) b == ById(sh.nodes, sh.bars[k].n1)
      sq(s, t) == LET d == RSub(RParse(s), RParse(t)) IN RMul(d, d)
      L == RSqrt(RAdd(sq(a.x, b.x), RAdd(sq(a.y, b.y), sq(a.z, b.z))))
  IN RText(RMul(f, IF RIsSquare(RAdd(sq(a.x, b.x), RAdd(sq(a.y, b.y), sq(a.z, b.z)))) THEN L ELSE RParse("1.25")))
(* directions of inclined supports: cosine, sine, angle *)
Slopes == <<
  <<"3/5", "4/5", "0.9272952180016123">>,
  <<"-5/13", "12/13", "1.965587446494658">>,
  <<"0", "1", "1.5707963267948966">>,
  <<"8/17", "-15/17", "-1.0808390005411683">>,
  <<"-3/5", "-4/5", "-2.214297435588181">>,
  <<"-1", "0", "3.141592653589793">>,
  <<"4/5", "3/5", "0.6435011087932844">> >>
Third == RDiv(R1, RInt(3))
PointLoad(kind, pos, v) == [id |-> "", type |-> "dirac", kind |-> kind, pos |-> pos, v0 |-> v]
LineLoad(kind, v) == [id |-> "", type |-> "constant", kind |-> kind, v0 |-> v]
WedgeLoad(kind, v, w) == [id |-> "", type |-> "linear", kind |-> kind, v0 |-> v, v1 |-> w]
BarLoads(sh, k) ==
  LET at(f) == Part(sh, k, f)
      axial == << <<PointLoad("Ux", at(R0), "3")>>, <<PointLoad("Ux", at(Third), "-5/2")>>, <<PointLoad("Ux", at(R1), "4")>>,
                  <<LineLoad("Ux", "2")>>, <<WedgeLoad("Ux", "-1", "7/2")>>,
                  <<PointLoad("Ux", at(Third), "2"), LineLoad("Ux", "-1"), PointLoad("Ux", at(Third), "1"), WedgeLoad("Ux", "3", "0")>> >>
      across == << <<PointLoad("Uz", at(R0), "3")>>, <<PointLoad("Uz", at(Third), "-5")>>, <<PointLoad("Uz", at(R1), "2")>>,
                   <<PointLoad("Phiy", at(R0), "3")>>, <<PointLoad("Phiy", at(RDiv(R1, RInt(4))), "-6")>>, <<PointLoad("Phiy", at(R1), "5")>>,
                   <<LineLoad("Uz", "3")>>, <<WedgeLoad("Uz", "4", "-2")>>, <<WedgeLoad("Uz", "0", "6")>>,
                   <<PointLoad("Phiy", at(Third), "2"), PointLoad("Uz", at(Third), "-4"), LineLoad("Uz", "1"), PointLoad("Uz", at(RDiv(R1, RInt(2))), "7"),
                     WedgeLoad("Ux", "1", "-2"), PointLoad("Ux", at(RDiv(R1, RInt(2))), "3")>> >>
  IN <<<<>>>> \o axial \o IF sh.bars[k].kind = "frame2d" THEN across ELSE <<>>

(* complete structure from its parts; loads: a sequence of loads per bar *)
Structure(sh, hs, pick, dirichlet, links, loads, neumann) ==
  LET es == ShapeElems(sh, hs, pick) IN
  TLCEval([nodes |-> sh.nodes, mats |-> Mats, css |-> Sects, elems |-> es, dirichlet |-> dirichlet, neumann |-> neumann, links |-> links,
   bag |-> [id \in {es[k].id : k \in 1..Len(es)} |->
              LET k == CHOOSE j \in 1..Len(es) : es[j].id = id IN
              [i \in 1..Len(loads[k]) |-> [loads[k][i] EXCEPT !.id = StrCat(id, ToString(i))]]]])
(* as the driver wants it: loads are listed with their element *)
ForDriver(St) ==
  [nodes |-> St.nodes, mats |-> St.mats, css |-> St.css, elems |-> St.elems, dirichlet |-> St.dirichlet, neumann |-> St.neumann,
   links |-> St.links,
   loads |-> FlattenSeq([k \in 1..Len(St.elems) |-> [i \in 1..Len(St.bag[St.elems[k].id]) |-> [elem |-> St.elems[k].id, load |-> St.bag[St.elems[k].id][i]]]])]
Emit(x) == PrintT("EMIT " \o ToJson(x))
=============================================================================
