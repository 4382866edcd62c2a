------------------------------ MODULE MC_Poly ------------------------------
(***************************************************************************)
(* All sequences of up to LEN pieces of polynomials from a catalogue, next *)
(* to each other, with tiny or large gaps, or with repeated intervals.     *)
(* The state is the sequence <<coefficients, joint, coefficients, ...>>.   *)
(* Emitted for each: trimming and joining with several tolerances,         *)
(* evaluation and searching around all ends of intervals.                  *)
(* PICK: one in PICK sequences of more than one piece.                     *)
(***************************************************************************)
EXTENDS Catalogue, PolySeq
VARIABLE c

Cs == << <<"0">>, <<"1">>, <<"1", "0">>, <<"0", "1">>, <<"1", "2">>, <<"1", "2.0000001">>, <<"1", "1e-9">>, <<"-1">>, <<"1e-9">>, <<"1", "2", "3">>,
         <<"1.0000000001">>, <<"0", "0", "0">>, <<"5", "-3", "0.25", "1e-12">>, <<"-1", "2">>, <<"1000.5", "1e-3">>, <<"2", "1">> >>
Tols == <<"0", "1e-12", "1e-8", "0.001", "1.5">>
(* joints: 1 at the end, 2 a gap below the tolerance of domains, 3 a gap, 4 an overlap, 5 the same interval again *)
Joints == 5
End(i) == <<"0", "0.5", "2", "3.25", "7">>[i + 1]
StartOf(i, joint) ==
  CASE joint = 1 -> End(i - 1)
    [] joint = 2 -> <<"1e-11", "0.50000000001", "2.00000000001", "3.25000000001">>[i]
    [] joint = 3 -> <<"0.001", "0.6", "2.001", "4">>[i]
    [] joint = 4 -> <<"-0.001", "0.4", "1.999", "3">>[i]
    [] joint = 5 -> IF i = 1 THEN "0" ELSE End(i - 2)
EndOf(i, joint) == IF joint = 5 /\ i > 1 THEN End(i - 1) ELSE End(i)
Pieces(s) == TLCEval([i \in 1..((Len(s) + 1) \div 2) |->
               LET joint == IF i = 1 THEN 1 ELSE s[2 * i - 2] IN [x0 |-> StartOf(i, joint), xe |-> EndOf(i, joint), c |-> Cs[s[2 * i - 1]]]])
MaxLen == EnvNat("LEN", 3)
Pick == EnvNat("PICK", 1)

Xs == <<"0", "0.5", "0.4999999999", "0.50000000005", "0.5000000002", "2", "3.25", "3.3", "-0.0000000000999", "-0.000000001", "1", "2.00000000001">>
Ends == << <<"0", "0.5">>, <<"0.5", "2">>, <<"2", "3.25">>, <<"0", "2">>, <<"0.50000000001", "2">>, <<"0.5", "2.0000000001">>, <<"0.5", "2.00000001">>, <<"2", "0.5">>, <<"0", "7">>, <<"0.6", "2">> >>
(* the pieces themselves are also asked for, by their own ends *)
Asked(ps) == Ends \o [i \in 1..Len(ps) |-> <<ps[i].x0, ps[i].xe>>]
Ops(ps) == [i \in 1..Len(Tols) |-> [op |-> "trim", ps |-> ps, tol |-> Tols[i]]]
           \o [i \in 1..Len(Tols) |-> [op |-> "compact", ps |-> ps, tol |-> Tols[i]]]
           \o [i \in 1..Len(Asked(ps)) |-> [op |-> "interval", ps |-> ps, x0 |-> Asked(ps)[i][1], xe |-> Asked(ps)[i][2]]]
           \o (IF ps = <<>> THEN <<>> ELSE [i \in 1..Len(Xs) |-> [op |-> "eval", p |-> ps[Len(ps)], x |-> Xs[i]]])
Init == c = <<>> /\ Emit([ops |-> Ops(<<>>)])
Next == \E k \in 1..(IF Len(c) >= 2 * MaxLen - 1 THEN 0 ELSE IF Len(c) % 2 = 0 THEN Len(Cs) ELSE Joints) :
  /\ c' = Append(c, k)
  /\ Holds(Len(c') >= 3 /\ Len(c') % 2 = 1 => OneIn(c', Pick))
  /\ IF Len(c') % 2 = 1 THEN Emit([ops |-> Ops(Pieces(c'))]) ELSE TRUE
Spec == Init /\ [][Next]_c

-----------------------------------------------------------------------------
Value(p, x) == PEval(NC(p), x)
Mid(p) == RDiv(RAdd(Num(p.x0), Num(p.xe)), 2)
Points(p) == {Num(p.x0), Mid(p), Num(p.xe)}
TrimTheorems(ps, tol) ==
  \A i \in 1..Len(ps) :
    LET cs == NC(ps[i]) t == Trimmed(cs, tol) IN
    /\ Trimmed(t, tol) = t
    /\ Len(t) \in 1..Len(cs)
    /\ Len(t) > 1 => RLt(tol, RAbs(t[Len(t)]))
    /\ \A x \in Points(ps[i]) : LET m == RMax(R1, RAbs(x)) IN   \* what is left out is small
         RLe(RAbs(RSub(PEval(cs, x), PEval(t, x))), RMul(RMul(tol, RInt(Len(cs))), RMul(m, RMul(m, m))))
JoinTheorems(ps, tol) ==
  LET j == Joined(ps, Len(ps), tol) IN
  /\ Len(j) <= Len(ps) /\ (Len(j) = 0 <=> Len(ps) = 0)
  /\ Len(j) > 0 => j[1].x0 = ps[1].x0 /\ j[Len(j)].xe = ps[Len(ps)].xe
  /\ \A i \in 1..Len(j) : \E k, m \in 1..Len(ps) : k <= m /\ j[i] = [ps[k] EXCEPT !.xe = ps[m].xe]
                             /\ \A n \in k..(m - 1) : Joins(ps[n], ps[n + 1], tol)
  /\ RIsZero(tol) =>   \* nothing changes but the number of pieces, and there are as few as possible
       /\ \A i \in 1..(Len(j) - 1) : ~Joins(j[i], j[i + 1], tol)
       /\ Joined(j, Len(j), tol) = j
       /\ \A k \in 1..Len(ps) : \E i \in 1..Len(j) : \A x \in Points(ps[k]) : Value(j[i], x) = Value(ps[k], x)
Theorems == Len(c) % 2 = 1 =>
  \A t \in 1..Len(Tols) : TrimTheorems(Pieces(c), RParse(Tols[t])) /\ JoinTheorems(Pieces(c), RParse(Tols[t]))
=============================================================================
