---------------------------- MODULE MC_Sections ----------------------------
(***************************************************************************)
(* Cross sections: every combination of parameters from a list of values   *)
(* (missing, zero, negative, small, large, equal ones).                    *)
(* State: <<kind, number of each parameter's value...>>.  Emitted: the     *)
(* section itself, and rectangles also exchanged and scaled.               *)
(***************************************************************************)
EXTENDS Catalogue, Sections
VARIABLE c
Pick == EnvNat("PICK", 1)

Values == <<"1", "2", "0.5", "3.75", "0", "-1", "0.001", "250", "-1e-9", "1e-6", "">>   \* the last one: missing
Rolls == <<"0", "-1", "1.5707963267948966", "-1.5707963267948966", "3.14", "-7", "90", "-90", "6.283185307179586", "-1e-9", "">>   \* as many
ValueOf(name, k) == IF name = "roll" THEN Rolls[k] ELSE Values[k]
RectNames == <<"b", "h", "roll">>
ConstNames == <<"A", "Iyy", "Izz", "Ixx", "roll">>
NamesOf(s) == IF s[1] = 1 THEN RectNames ELSE ConstNames
(* a missing side of a rectangle counts as zero, other parameters are optional or refused *)
Section1Of(s) ==
  LET names == NamesOf(s) given == {i \in 1..Len(names) : ValueOf(names[i], s[i + 1]) # ""} IN
  [kind |-> IF s[1] = 1 THEN "rectangle" ELSE "constants", par |-> [n \in {names[i] : i \in given} |-> ValueOf(n, s[1 + CHOOSE i \in given : names[i] = n])]]
Op(cs) == [op |-> "cs", kind |-> cs.kind, par |-> cs.par]
Swapped(cs) == [cs EXCEPT !.par = [n \in DOMAIN @ |-> CASE n = "b" -> @["h"] [] n = "h" -> @["b"] [] OTHER -> @[n]]]
Scaled(cs, f) == [cs EXCEPT !.par = [n \in DOMAIN @ |-> IF n \in {"b", "h"} THEN RText(RMul(RParse(f), RParse(@[n]))) ELSE @[n]]]
Sides(cs) == cs.kind = "rectangle" /\ HasPar(cs, "b") /\ HasPar(cs, "h")
Done(s) == Len(s) > 0 /\ Len(s) = Len(NamesOf(s)) + 1
Init == c = <<>>
Next == \E k \in 1..(IF Len(c) = 0 THEN 2 ELSE IF Done(c) THEN 0 ELSE Len(Values)) :
  /\ c' = Append(c, k)
  /\ Holds(c'[1] = 2 /\ Len(c') >= 4 => OneIn(c', Pick))
  /\ IF Done(c') THEN LET cs == Section1Of(c') IN Emit([ops |-> <<Op(cs)>> \o IF Sides(cs) THEN <<Op(Swapped(cs)), Op([Scaled(cs, "4") EXCEPT !.par = [n \in DOMAIN @ |-> RDecimal(@[n])]])>> ELSE <<>>]) ELSE TRUE
Spec == Init /\ [][Next]_c

V(cs, what) == CsValue(cs, what)
Theorems ==
  Done(c) =>
    LET cs == Section1Of(c) IN
    /\ CsOk(cs) => \A n \in {"A", "Iyy", "Izz"} : Positive(V(cs, n))
    /\ CsOk(cs) => RLe(R0, V(cs, "Ixx")) /\ RLe(R0, V(cs, "roll"))
    /\ Sides(cs) =>
         LET tw == Swapped(cs) big == Scaled(cs, "3") IN
         /\ CsOk(tw) <=> CsOk(cs)
         /\ CsOk(cs) =>
              /\ V(tw, "A") = V(cs, "A") /\ V(tw, "Iyy") = V(cs, "Izz") /\ V(tw, "Izz") = V(cs, "Iyy") /\ V(tw, "Ixx") = V(cs, "Ixx")
              /\ V(big, "A") = RMul(RInt(9), V(cs, "A"))
              /\ \A n \in {"Iyy", "Izz", "Ixx"} : V(big, n) = RMul(RInt(81), V(cs, n))
              \* torsion: less than the polar second moment of area, and than that of a thin strip
              /\ RLt(V(cs, "Ixx"), RAdd(V(cs, "Iyy"), V(cs, "Izz")))
              /\ LET a == RMax(Par(cs, "b"), Par(cs, "h")) b == RMin(Par(cs, "b"), Par(cs, "h")) strip == RDiv(RMul(a, Cube(b)), RInt(3)) IN
                 RLt(V(cs, "Ixx"), strip) /\ RLt(RMul(RParse("0.4"), strip), V(cs, "Ixx"))
=============================================================================
