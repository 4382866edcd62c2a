------------------------------- MODULE MC_Beam -------------------------------
(***************************************************************************)
(* All single elements: every direction, every supported set of hinges,    *)
(* every set of supports, with and without movements, and loads of all     *)
(* kinds.  The state is the sequence of choices made so far; a structure   *)
(* is complete after five choices.  Checked for all of them: the theorems  *)
(* in Theory.  Emitted: scenarios that solve the structure.                *)
(*                                                                         *)
(* UNSTABLE=1: structures without loads, stable or not.                    *)
(* PICK: one in PICK combinations of hinges and supports is continued,     *)
(* LOADPICK: one in LOADPICK of its load cases.                            *)
(***************************************************************************)
EXTENDS Catalogue
VARIABLE c

Shapes == [i \in 1..Len(BeamEnds) |-> BeamShape(i)] \o [i \in 1..Len(TrussEnds) |-> TrussShape(i)] \o [i \in 1..Len(SpaceEnds) |-> SpaceShape(i)]
ShapeOf(s) == Shapes[s[1]]
HingesOf(s) == <<HingeSets(ShapeOf(s).bars[1].kind)[s[2]]>>
FixedOf(s) == Subset(ShapeDofs(ShapeOf(s)), s[3] - 1)
LoadsOfBar(s) == BarLoads(ShapeOf(s), 1)
Bare(s) == Structure(ShapeOf(s), HingesOf(s), Hash(s, 3) % 2, Supports(FixedOf(s), IF Len(s) < 5 THEN "none" ELSE Movings[s[5]]), <<>>, <<<<>>>>, <<>>)
Free(s) == SelectSeq(ShapeDofs(ShapeOf(s)), LAMBDA x : x \notin FixedOf(s))
NodalOf(s) == [i \in 1..Len(Free(s)) |-> [node |-> Free(s)[i][1], dof |-> Free(s)[i][2], val |-> <<"2", "-3", "1/2">>[(i % 3) + 1]]]
Full(s) ==
  LET St == Bare(s) IN
  IF s[4] > Len(LoadsOfBar(s)) THEN [St EXCEPT !.neumann = NodalOf(s)]
  ELSE Structure(ShapeOf(s), HingesOf(s), Hash(s, 3) % 2, St.dirichlet, <<>>, <<LoadsOfBar(s)[s[4]]>>, <<>>)

Unstable == Env("UNSTABLE", "0") = "1"
Pick == EnvNat("PICK", 1)
LoadPick == EnvNat("LOADPICK", 1)
Options(s) ==
  CASE Len(s) = 0 -> Len(Shapes)
    [] Len(s) = 1 -> Len(HingeSets(ShapeOf(s).bars[1].kind))
    [] Len(s) = 2 -> Pow2(Len(ShapeDofs(ShapeOf(s))))
    [] Len(s) = 3 -> IF Unstable THEN 0 ELSE Len(LoadsOfBar(s)) + 1
    [] Len(s) = 4 -> Len(Movings)
    [] OTHER -> 0
(* worth solving: stable, something supported and something free *)
Goes(s) == Len(s) < 3 \/ (FixedOf(s) # {} /\ Free(s) # <<>>)
Init == c = <<>>
Next == \E k \in 1..Options(c) :
  /\ c' = Append(c, k)
  /\ Holds(Len(c') = 3 => OneIn(c', Pick) /\ Goes(c') /\ (Unstable \/ Stable(Bare(c'))))
  /\ Holds(Len(c') = 5 => OneIn(c', LoadPick))
  /\ IF Len(c') = 3 /\ Unstable THEN Emit([st |-> ForDriver(Bare(c')), stable |-> Stable(Bare(c'))])
     ELSE IF Len(c') = 5 THEN Emit([st |-> ForDriver(Full(c'))]) ELSE TRUE
Theorems == /\ Len(c) = 5 => TheoremsHold(Full(c))
            /\ Len(c) = 3 /\ Unstable => TheoremsHold(Bare(c))
Spec == Init /\ [][Next]_c
=============================================================================
