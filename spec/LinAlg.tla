------------------------------- MODULE LinAlg -------------------------------
(* Exact linear algebra over the rationals: matrices are sequences of rows. *)
EXTENDS Rat, Integers, Sequences, TLC

ZeroVec(n) == TLCEval([i \in 1..n |-> R0])
UnitVec(n, k) == TLCEval([i \in 1..n |-> IF i = k THEN R1 ELSE R0])
VAdd(a, b) == VSubMul(a, RInt(-1), b)

RECURSIVE ElimFrom(_, _, _)
(* Gauss-Jordan elimination of columns k..n; rows may be longer than n (right hand sides).
   Returns the reduced rows, or <<>> if the leading n columns are singular. *)
ElimFrom(A, n, k) ==
  IF k > n THEN A
  ELSE LET ps == {i \in k..n : ~RIsZero(A[i][k])} IN
       IF ps = {} THEN <<>>
       ELSE LET p  == CHOOSE i \in ps : TRUE
                pr == VScale(RDiv(R1, A[p][k]), A[p])
                B  == TLCEval([i \in 1..n |->
                         IF i = k THEN pr
                         ELSE LET row == IF i = p THEN A[k] ELSE A[i] IN
                              IF RIsZero(row[k]) THEN row ELSE VSubMul(row, row[k], pr)])
            IN ElimFrom(B, n, k + 1)

(* The solution of the n x n system with augmented rows A; <<>> if singular. *)
Solve(A, n) ==
  LET B == ElimFrom(A, n, 1) IN
  IF B = <<>> /\ n > 0 THEN <<>> ELSE TLCEval([i \in 1..n |-> B[i][n + 1]])

RECURSIVE RankFrom(_, _, _, _)
(* rows: a sequence of rows of length n; r pivots were found in columns before k *)
RankFrom(rows, n, k, r) ==
  IF k > n \/ rows = <<>> THEN r
  ELSE LET ps == {i \in 1..Len(rows) : ~RIsZero(rows[i][k])} IN
       IF ps = {} THEN RankFrom(rows, n, k + 1, r)
       ELSE LET p  == CHOOSE i \in ps : TRUE
                pr == VScale(RDiv(R1, rows[p][k]), rows[p])
                rest == TLCEval([j \in 1..(Len(rows) - 1) |->
                          LET row == rows[IF j < p THEN j ELSE j + 1] IN
                          IF RIsZero(row[k]) THEN row ELSE VSubMul(row, row[k], pr)])
            IN RankFrom(rest, n, k + 1, r + 1)
Rank(rows, n) == RankFrom(rows, n, 1, 0)
=============================================================================
