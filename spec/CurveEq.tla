------------------------------ MODULE CurveEq ------------------------------
(* The curve y^2 = x^3 + CB over the field with P elements. *)
EXTENDS Field, Ec
CONSTANT CB
Rhs(x) == FAdd(FMul(FSq(x), x), CB)
OnCurve(X) == EcOnCurve(P, F0, CB, X)
=============================================================================
