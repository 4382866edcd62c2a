------------------------------ MODULE PolySeq ------------------------------
(***************************************************************************)
(* Operations on piecewise polynomials: pieces are [x0, xe, c] with texts  *)
(* as numbers, c[i] the coefficient of x^(i-1).                            *)
(*                                                                         *)
(* Comparisons within a tolerance have two versions, "surely" and          *)
(* "possibly"; where they differ (arguments at the very edge of the        *)
(* tolerance) both outcomes are allowed.                                   *)
(***************************************************************************)
EXTENDS Deflect

Num(x) == RParse(x)
NC(p) == [i \in 1..Len(p.c) |-> RParse(p.c[i])]
SamePiece(p, q) == Num(p.x0) = Num(q.x0) /\ Num(p.xe) = Num(q.xe) /\ NC(p) = NC(q)
SamePieces(a, b) == Len(a) = Len(b) /\ \A i \in 1..Len(a) : SamePiece(a[i], b[i])
PieceNumeric(ps) == AllNum(ps)

-----------------------------------------------------------------------------
(* Evaluation *)
DomTol == RParse("1e-10")
Widen(x) == RAdd(x, RMul(RAbs(x), RParse("4e-16")))
(* bounds within which evaluation must succeed, and beyond which it must fail; in between is rounding *)
InDomain(p, x) == RLe(Num(p.x0), x) /\ RLe(x, Num(p.xe))
Round(p, x) == RMul(RParse("1e-15"), RMax(RAbs(x), RMax(RAbs(Num(p.x0)), RAbs(Num(p.xe)))))
OutOfDomain(p, x) ==
  LET m == RAdd(RMul(RParse("1.01"), DomTol), Round(p, x)) IN
  RLt(x, RSub(Num(p.x0), m)) \/ RLt(RAdd(Num(p.xe), m), x)
RECURSIVE AbsEval(_, _)
AbsEval(c, x) == IF c = <<>> THEN R0 ELSE RAdd(RAbs(Head(c)), RMul(RAbs(x), AbsEval(Tail(c), x)))
EvalClauses(p, x, rep) ==
  LET c == NC(p)
      right == RIsNum(rep.val) /\ RLe(RAbs(RSub(Num(rep.val), PEval(c, x))), RMul(RParse("1e-13"), AbsEval(c, x)))
      tag == <<p, Show(x), rep>>
  IN {Cl("evalok", InDomain(p, x) => rep.err = "" /\ right, tag),
      Cl("evalerr", OutOfDomain(p, x) => rep.err # "", tag),
      Cl("evalval", rep.err = "" => right, tag),
      Cl("degree", rep.degree = Len(p.c) - 1, tag),
      Cl("evalpure", SamePieces(rep.after, <<p>>), tag)}

-----------------------------------------------------------------------------
(* Trimming *)
RECURSIVE TrimLen(_, _, _)
TrimLen(c, n, tol) == IF n > 1 /\ RLe(RAbs(c[n]), tol) THEN TrimLen(c, n - 1, tol) ELSE n
Trimmed(c, tol) ==
  LET n == TrimLen(c, Len(c), tol) IN
  [i \in 1..n |-> IF i = 1 /\ RLe(RAbs(c[1]), tol) THEN R0 ELSE c[i]]
TrimClauses(ps, tol, rep) ==
  {Cl("trim", Len(rep.ps) = Len(ps) /\ PieceNumeric(rep.ps) /\ \A i \in 1..Len(ps) :
       /\ Num(rep.ps[i].x0) = Num(ps[i].x0) /\ Num(rep.ps[i].xe) = Num(ps[i].xe)
       /\ NC(rep.ps[i]) = Trimmed(NC(ps[i]), tol), <<ps, Show(tol), rep>>)}

-----------------------------------------------------------------------------
(* Joining *)
AllClose(p, q, Close2(_, _)) ==
  /\ Close2(Num(p.xe), Num(q.x0))
  /\ Len(p.c) = Len(q.c)
  /\ \A i \in 1..Len(p.c) : Close2(Num(p.c[i]), Num(q.c[i]))
Joins(p, q, tol) == AllClose(p, q, LAMBDA a, b : Within(a, b, tol))
SurelyJoins(p, q, tol) == AllClose(p, q, LAMBDA a, b : SurelyWithin(a, b, tol))
PossiblyJoins(p, q, tol) == AllClose(p, q, LAMBDA a, b : PossiblyWithin(a, b, tol))
Clear(ps, tol) == \A i \in 2..Len(ps) : SurelyJoins(ps[i-1], ps[i], tol) = PossiblyJoins(ps[i-1], ps[i], tol)
RECURSIVE Joined(_, _, _)
(* i pieces are left to join from the end; a run becomes its first piece, extended to its end *)
Joined(ps, i, tol) ==
  IF i = 0 THEN <<>>
  ELSE LET RECURSIVE First(_)
           First(k) == IF k > 1 /\ Joins(ps[k-1], ps[k], tol) THEN First(k - 1) ELSE k
           f == First(i)
       IN Append(Joined(ps, f - 1, tol), [ps[f] EXCEPT !.xe = ps[i].xe])
CompactClauses(ps, tol, rep) ==
  {Cl("compact", PieceNumeric(rep.ps) /\ (Clear(ps, tol) => SamePieces(rep.ps, Joined(ps, Len(ps), tol))), <<ps, Show(tol), rep>>)}

-----------------------------------------------------------------------------
(* Searching *)
SearchTol == RParse("1e-10")
Sure(p, a, b) == SurelyWithin(a, Num(p.x0), SearchTol) /\ SurelyWithin(b, Num(p.xe), SearchTol)
Poss(p, a, b) == PossiblyWithin(a, Num(p.x0), SearchTol) /\ PossiblyWithin(b, Num(p.xe), SearchTol)
IntervalClauses(ps, a, b, rep) ==
  {Cl("interval",
      IF rep.i = -1 THEN ~\E k \in 1..Len(ps) : Sure(ps[k], a, b)
      ELSE /\ rep.i \in 0..(Len(ps) - 1)
           /\ Poss(ps[rep.i + 1], a, b)
           /\ ~\E k \in 1..rep.i : Sure(ps[k], a, b), <<ps, Show(a), Show(b), rep>>),
   Cl("intervalpure", SamePieces(rep.after, ps), rep)}
=============================================================================
