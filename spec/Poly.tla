-------------------------------- MODULE Poly --------------------------------
(* Polynomials with rational coefficients: c[i] is the coefficient of x^(i-1). *)
EXTENDS Rat, Integers, Sequences, TLC

LOCAL Max(a, b) == IF a < b THEN b ELSE a
PCoef(p, i) == IF i <= Len(p) THEN p[i] ELSE R0
PConst(c) == <<c>>
PX == <<R0, R1>>
PAdd(p, q) == TLCEval([i \in 1..Max(Len(p), Len(q)) |-> RAdd(PCoef(p, i), PCoef(q, i))])
PScale(f, p) == IF p = <<>> THEN p ELSE VScale(f, p)
PSub(p, q) == PAdd(p, PScale(RInt(-1), q))
RECURSIVE PMul(_, _)
PMul(p, q) == IF p = <<>> THEN <<>>
              ELSE PAdd(PScale(Head(p), q), IF Len(p) = 1 THEN <<>> ELSE <<R0>> \o PMul(Tail(p), q))
PDiff(p) == IF Len(p) <= 1 THEN <<>> ELSE TLCEval([i \in 1..(Len(p) - 1) |-> RMul(RInt(i), p[i + 1])])
PInt(p) == <<R0>> \o TLCEval([i \in 1..Len(p) |-> RDiv(p[i], RInt(i))])   \* zero at x = 0
RECURSIVE PEval(_, _)
PEval(p, x) == IF p = <<>> THEN R0
               ELSE IF Len(p) = 1 THEN p[1] ELSE RAdd(p[1], RMul(x, PEval(Tail(p), x)))
PIntegral(p, a, b) == LET q == PInt(p) IN RSub(PEval(q, b), PEval(q, a))
=============================================================================
