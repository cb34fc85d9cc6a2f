-------------------------------- MODULE Ec --------------------------------
(* Affine arithmetic on y^2 = x^3 + a x + b over F_p (chord and tangent).  <<>> is the point at
   infinity.  java/BigOverrides.java replaces EcAdd, EcMul and EcMsm (which it evaluates with Jacobian
   coordinates for the multiples); MC_Big.tla compares the replacement with EcAddDef/EcMulDef. *)
EXTENDS Big

EcAddDef(p, a, X, Y) ==
  IF X = <<>> THEN Y
  ELSE IF Y = <<>> THEN X
  ELSE IF X[1] = Y[1] /\ BMod(BAdd(X[2], Y[2]), p) = BMod(BSub(p, p), p) THEN <<>>
  ELSE LET two == BAdd(X[2], X[2])
           num == IF X[1] = Y[1] THEN BMod(BAdd(BMul(BMul(X[1], X[1]), 3), a), p)
                  ELSE BMod(BSub(BAdd(Y[2], p), X[2]), p)
           den == IF X[1] = Y[1] THEN BMod(two, p) ELSE BMod(BSub(BAdd(Y[1], p), X[1]), p)
           l == BMod(BMul(num, BInvMod(den, p)), p)
           x3 == BMod(BSub(BSub(BMul(l, l), X[1]), Y[1]), p)
       IN <<x3, BMod(BSub(BMul(l, BSub(X[1], x3)), X[2]), p)>>

RECURSIVE EcMulDef(_, _, _, _)
EcMulDef(p, a, k, X) ==
  IF BLen(k) = 0 THEN <<>>
  ELSE LET h == EcMulDef(p, a, BDiv(k, 2), X)
           d == EcAddDef(p, a, h, h)
       IN IF BBit(k, 0) = 1 THEN EcAddDef(p, a, d, X) ELSE d

EcAdd(p, a, X, Y) == EcAddDef(p, a, X, Y)
EcMul(p, a, k, X) == EcMulDef(p, a, k, X)
RECURSIVE EcMsmTo(_, _, _, _, _)
EcMsmTo(p, a, ks, Xs, n) ==
  IF n = 0 THEN <<>> ELSE EcAddDef(p, a, EcMsmTo(p, a, ks, Xs, n - 1), EcMulDef(p, a, ks[n], Xs[n]))
EcMsm(p, a, ks, Xs) == EcMsmTo(p, a, ks, Xs, Len(ks))

EcNeg(p, X) == IF X = <<>> THEN <<>> ELSE <<X[1], BMod(BSub(p, X[2]), p)>>
EcOnCurve(p, a, b, X) ==
  X = <<>> \/ BMod(BMul(X[2], X[2]), p) = BMod(BAdd(BAdd(BMul(BMul(X[1], X[1]), X[1]), BMul(a, X[1])), b), p)
=============================================================================
