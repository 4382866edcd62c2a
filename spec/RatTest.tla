------------------------------ MODULE RatTest ------------------------------
(* Model-checks the arithmetic the specification is built on. *)
EXTENDS Rat, Text, LinAlg, Poly, Integers, TLC
Q(n, d) == RDiv(RInt(n), RInt(d))
S == {Q(n, d) : n \in -6..6, d \in 1..5} \cup
     {RParse("123456789123456789/7"), RParse("-1e-30"), RParse("9.87654321e25"), RMul(RInt(2147483647), RInt(2147483647))}
ASSUME \A n \in -20..20, m \in -20..20 :
  /\ RAdd(RInt(n), RInt(m)) = RInt(n + m)
  /\ RMul(RInt(n), RInt(m)) = RInt(n * m)
  /\ RSub(RInt(n), RInt(m)) = RInt(n - m)
  /\ RLt(RInt(n), RInt(m)) <=> n < m
  /\ RLe(n, m) <=> n <= m
  /\ RSign(n) = RCmp(n, 0)
  /\ m # 0 => RMul(Q(n, m), m) = RInt(n)
ASSUME \A a \in S, b \in S :
  /\ RAdd(a, b) = RAdd(b, a)
  /\ RMul(a, b) = RMul(b, a)
  /\ RSub(a, b) = RNeg(RSub(b, a))
  /\ RAdd(a, RNeg(a)) = R0
  /\ RAbs(a) = RMax(a, RNeg(a))
  /\ RIsZero(a) <=> a = R0
  /\ RLt(a, b) <=> RSign(RSub(b, a)) = 1
  /\ ~RIsZero(b) => RMul(RDiv(a, b), b) = a
  /\ RParse(RText(a)) = a
  /\ RSqrt(RMul(a, a)) = RAbs(a) /\ RIsSquare(RMul(a, a))
  /\ LET s == RSqrt(RAbs(a)) IN RLe(RAbs(RSub(RMul(s, s), RAbs(a))), RMul(RAbs(a), RParse("1e-33")))
T == {Q(n, d) : n \in {-3, 0, 1, 2}, d \in {1, 3}} \cup {RParse("9.87654321e25"), RParse("-1e-30")}
ASSUME \A a \in T, b \in T, c \in T :
  /\ RAdd(a, RAdd(b, c)) = RAdd(RAdd(a, b), c)
  /\ RMul(a, RMul(b, c)) = RMul(RMul(a, b), c)
  /\ RMul(a, RAdd(b, c)) = RAdd(RMul(a, b), RMul(a, c))
  /\ RLt(a, b) => RLt(RAdd(a, c), RAdd(b, c))
  /\ VSubMul(<<a, b>>, c, <<b, a>>) = <<RSub(a, RMul(c, b)), RSub(b, RMul(c, a))>>
  /\ VScale(c, <<a, b>>) = <<RMul(c, a), RMul(c, b)>>
  /\ VDot(<<a, b>>, <<b, c>>) = RAdd(RMul(a, b), RMul(b, c))
  /\ PEval(PMul(<<a, b, c>>, <<c, a>>), b) = RMul(PEval(<<a, b, c>>, b), PEval(<<c, a>>, b))
  /\ PDiff(PInt(<<a, b, c>>)) = <<a, b, c>>
  /\ PEval(<<a, b, c>>, c) = RAdd(a, RAdd(RMul(b, c), RMul(c, RMul(c, c))))
  /\ PIntegral(<<a, b>>, a, c) = RAdd(RMul(a, RSub(c, a)), RDiv(RMul(b, RSub(RMul(c, c), RMul(a, a))), 2))
  /\ LET A == << <<a, b, c>>, <<c, a, b>> >> X == Solve(A, 2) det == RSub(RMul(a, a), RMul(b, c)) IN
     IF RIsZero(det) THEN X = <<>> /\ Rank(<< <<a, b>>, <<c, a>> >>, 2) < 2
     ELSE /\ VDot(<<a, b>>, X) = c /\ VDot(<<c, a>>, X) = b
          /\ Rank(<< <<a, b>>, <<c, a>> >>, 2) = 2
ASSUME RParse("1.25") = Q(5, 4) /\ RParse("-3/7") = Q(-3, 7) /\ RParse("1e+2") = RInt(100) /\ RParse("2.5e-3") = Q(1, 400)
ASSUME RIsNum("1e5") /\ ~RIsNum("NaN") /\ ~RIsNum("+Inf") /\ ~RIsNum("-Inf")
ASSUME RLe(RAbs(RSub(RMul(RSqrt(2), RSqrt(2)), 2)), RParse("1e-33"))
ASSUME StrCmp("a", "b") = -1 /\ StrCmp("10", "9") = -1 /\ StrCmp("B", "a") = -1 /\ StrCmp("a", "a") = 0 /\ StrCmp("a", "") = 1
ASSUME StrContains("xA/Uxy", "A/Ux") /\ ~StrContains("A", "AB") /\ StrLen("AB") = 2 /\ StrAt("AB", 2) = "B" /\ StrCat("A", "B") = "AB"
ASSUME StrMatches("Singular matrix", "^Sing.*x$") /\ ~StrMatches("Singular matrix", "^matrix") /\ StrMatches("a", "") /\ StrMatches("bc", "a|c")
VARIABLE x
Init == x = 0
Next == UNCHANGED x
=============================================================================
