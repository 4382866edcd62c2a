------------------------------ MODULE Sections ------------------------------
(* Cross sections: cs is [kind, par], par a record with some of the parameters. *)
EXTENDS Deflect

HasPar(cs, k) == k \in DOMAIN cs.par
Par(cs, k) == IF HasPar(cs, k) THEN RParse(cs.par[k]) ELSE R0
Positive(x) == RLt(R0, x)
CsOk(cs) ==
  IF cs.kind = "rectangle" THEN Positive(Par(cs, "b")) /\ Positive(Par(cs, "h")) /\ RLe(R0, Par(cs, "roll"))
  ELSE /\ \A k \in {"A", "Iyy", "Izz"} : HasPar(cs, k) /\ Positive(Par(cs, k))
       /\ RLe(R0, Par(cs, "Ixx")) /\ RLe(R0, Par(cs, "roll"))

Cube(x) == RMul(x, RMul(x, x))
(* Roark's approximation of the torsion constant, long side a, short side b *)
Torsion(s, t) ==
  LET a == RMax(s, t) b == RMin(s, t) q == RDiv(b, a)
  IN RMul(RMul(a, Cube(b)),
          RSub(RDiv(R1, RInt(3)),
               RMul(RMul(RParse("0.21"), q), RSub(R1, RDiv(RMul(Cube(q), q), RInt(12))))))
CsValue(cs, what) ==
  IF cs.kind # "rectangle" \/ what = "roll" THEN Par(cs, what)
  ELSE LET b == Par(cs, "b") h == Par(cs, "h") IN
       CASE what = "A" -> RMul(b, h)
         [] what = "Iyy" -> RDiv(RMul(b, Cube(h)), RInt(12))
         [] what = "Izz" -> RDiv(RMul(h, Cube(b)), RInt(12))
         [] what = "Ixx" -> Torsion(b, h)
CsNames == {"A", "Iyy", "Izz", "Ixx", "roll"}
CsClauses(cs, rep) ==
  {Cl("csok", (rep.err = "") <=> CsOk(cs), <<cs, rep>>)}
  \cup IF rep.err # "" \/ ~CsOk(cs) THEN {}
       ELSE {Cl("csval", Close(rep[k], CsValue(cs, k), RMul(RParse("1e-12"), CsValue(cs, k))), <<k, Show(CsValue(cs, k)), cs, rep>>) : k \in CsNames}
=============================================================================
