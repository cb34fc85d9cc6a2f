------------------------------- MODULE Curve -------------------------------
(* The group of the curve y^2 = x^3 + CB over the field with P elements, its compressed encodings, and
   a register machine over it (one action per public operation of the curve crate's point type). *)
EXTENDS CurveEq, FiniteSets, SequencesExt
CONSTANTS Order,        \* the number of points
          Gen,          \* the generator, <<x, y>>
          Reg
VARIABLE pts

CA == F0
Inf == <<>>
PAdd(X, Y) == EcAdd(P, CA, X, Y)
PNeg(X) == EcNeg(P, X)
PSub(X, Y) == PAdd(X, PNeg(Y))
PDbl(X) == PAdd(X, X)
PMul(k, X) == EcMul(P, CA, BMod(k, Order), X)
PMsm(ks, Xs) == EcMsm(P, CA, [i \in 1..Len(ks) |-> BMod(ks[i], Order)], Xs)
RECURSIVE PSumTo(_, _)
PSumTo(s, k) == IF k = 0 THEN Inf ELSE PAdd(PSumTo(s, k - 1), s[k])
PSum(s) == PSumTo(s, Len(s))

\* ---- compressed form: the parity of y, and x
Lift(x, odd) == LET y == BSqrt(Rhs(x), P) IN <<x, IF FOdd(y) = odd THEN y ELSE FNeg(y)>>
Decodable(x) == BLt(x, P) /\ IsSquare(Rhs(x))
Compress(X) == <<FOdd(X[2]), X[1]>>

Init == pts = [r \in Reg |-> Inf]
Set(d, X) == pts' = [pts EXCEPT ![d] = X]
AllPts(rs) == [i \in 1..Len(rs) |-> pts[rs[i]]]

Identity(d) == Set(d, Inf)
Generator(d) == Set(d, Gen)
FromXY(d, x, y) == IF BLt(x, P) /\ BLt(y, P) /\ OnCurve(<<x, y>>) THEN Set(d, <<x, y>>) ELSE UNCHANGED pts
Decompress(d, odd, x) == IF Decodable(x) THEN Set(d, Lift(x, odd)) ELSE UNCHANGED pts
Add(d, a, b) == Set(d, PAdd(pts[a], pts[b]))
Sub(d, a, b) == Set(d, PSub(pts[a], pts[b]))
Neg(d, a) == Set(d, PNeg(pts[a]))
Double(d, a) == Set(d, PDbl(pts[a]))
Mul(d, k, a) == Set(d, PMul(k, pts[a]))
Msm(d, ks, rs) == Set(d, PMsm(ks, AllPts(rs)))
Sum(d, rs) == Set(d, PSum(AllPts(rs)))
=============================================================================
