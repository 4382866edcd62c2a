-------------------------------- MODULE Rat --------------------------------
(***************************************************************************)
(* Exact rational numbers of unbounded size.                               *)
(*                                                                         *)
(* A rational is the triple <<sign, numerator, denominator>>, the last two *)
(* as sequences of base 2^24 digits, reduced to lowest terms, so that      *)
(* equal numbers are equal TLA+ values.  Evaluation is by the TLC module   *)
(* override /verif/java/Rat.java (TLC's own integers have 32 bits); the    *)
(* definitions below only state the signatures.  RatTest.tla checks the    *)
(* override against the field and order laws and against TLC's integers.   *)
(***************************************************************************)
LOCAL INSTANCE Naturals
LOCAL Overridden == CHOOSE x \in {} : TRUE

RInt(a) == Overridden          \* an integer as a rational
RAdd(a, b) == Overridden
RSub(a, b) == Overridden
RMul(a, b) == Overridden
RDiv(a, b) == Overridden       \* b # 0
RNeg(a) == Overridden
RAbs(a) == Overridden
RSign(a) == Overridden         \* -1, 0, 1
RCmp(a, b) == Overridden       \* -1, 0, 1
RLt(a, b) == Overridden
RLe(a, b) == Overridden
RIsZero(a) == Overridden
RParse(s) == Overridden        \* the number denoted by "1.5e-3" or "-3/7"
RIsNum(s) == Overridden        \* does the text denote a (finite) number?
RStr(a) == Overridden          \* decimal approximation for messages
RText(a) == Overridden         \* exact text
RDecimal(s) == Overridden      \* the number denoted by a text as decimal text, up to fifteen digits
RSqrt(a) == Overridden         \* exact for squares, else relative error < 2^-110
RIsSquare(a) == Overridden

VSubMul(r, f, p) == Overridden \* vectors: r - f*p
VScale(f, p) == Overridden     \* vectors: f*p
VDot(r, p) == Overridden       \* vectors: scalar product

R0 == RInt(0)
R1 == RInt(1)
RMax(a, b) == IF RLt(a, b) THEN b ELSE a
RMin(a, b) == IF RLt(a, b) THEN a ELSE b
=============================================================================
