---------------------------- MODULE MapToCurve ----------------------------
(* The simplified SWU map to y^2 = x^3 + IA x + IB (draft-irtf-cfrg-hash-to-curve, 6.6.2, in the form
   of its definition, not of the straight-line program), and the isogeny of degree 3 from there to
   y^2 = x^3 + CB, given by the abscissa KX of its kernel: Velu's formulas, followed by (x/9, y/27). *)
EXTENDS CurveEq
CONSTANTS IA, IB, IZ, KX

Rhs1(x) == FAdd(FMul(FAdd(FSq(x), IA), x), IB)
SswuX(u) ==
  LET t == FMul(IZ, FSq(u))
      d == FAdd(FSq(t), t)
      x1 == IF d = F0 THEN FDiv(IB, FMul(IZ, IA)) ELSE FMul(FNeg(FDiv(IB, IA)), FAdd(F1, FInv(d)))
  IN IF IsSquare(Rhs1(x1)) THEN x1 ELSE FMul(t, x1)
Sswu(u) == LET x == SswuX(u) y == BSqrt(Rhs1(x), P) IN <<x, IF FOdd(y) = FOdd(u) THEN y ELSE FNeg(y)>>

Iso(Q) ==
  LET d == FInv(FSub(Q[1], KX))
      t == FMul(F(2), FAdd(FMul(F(3), FSq(KX)), IA))
      w == FMul(F(4), Rhs1(KX))
      x == FAdd(Q[1], FAdd(FMul(t, d), FMul(w, FSq(d))))
      y == FMul(Q[2], FSub(F1, FAdd(FMul(t, FSq(d)), FMul(FMul(F(2), w), FMul(FSq(d), d)))))
  IN <<FDiv(x, F(9)), FDiv(y, F(27))>>
Map(u) == Iso(Sswu(u))
MapPair(u, v) == EcAdd(P, F0, Map(u), Map(v))

\* what makes the constants right
Codomain == LET t == FMul(F(2), FAdd(FMul(F(3), FSq(KX)), IA))
                w == FMul(F(4), Rhs1(KX))
            IN /\ FSub(IA, FMul(F(5), t)) = F0
               /\ FSub(IB, FMul(F(7), FAdd(w, FMul(KX, t)))) = FMul(CB, FPow(F(3), N(6)))
KernelOk == \* KX is a root of the third division polynomial 3x^4 + 6 a x^2 + 12 b x - a^2, with no rational point above it
  /\ FSub(FAdd(FAdd(FMul(F(3), FPow(KX, N(4))), FMul(F(6), FMul(IA, FSq(KX)))), FMul(F(12), FMul(IB, KX))), FSq(IA)) = F0
  /\ ~IsSquare(Rhs1(KX))
ZOk == /\ ~IsSquare(IZ) /\ IZ # FNeg(F1)
       /\ IsSquare(Rhs1(FDiv(IB, FMul(IZ, IA))))
=============================================================================
