---------------------------- MODULE FieldMachine ----------------------------
(* The field types of the curve crate: ScalarMachine with roots, ratio roots and decimal text.  A root
   is chosen by the implementation, so the actions take it as an argument and say which are allowed. *)
EXTENDS ScalarMachine
CONSTANT Z                                    \* the fixed non-square of the ratio root

Cube(d, a) == Set(d, FMul(FSq(regs[a]), regs[a]))
PowBy(d, a, b) == Set(d, FPow(regs[a], regs[b]))
SqrtSome(d, a, y) == FSq(y) = regs[a] /\ Set(d, y)
SqrtNone(a) == ~IsSquare(regs[a]) /\ UNCHANGED regs
\* u/v is a square: y^2 v = u; otherwise y^2 v = Z u.  (For u = 0 the flag says nothing and y = 0.)
SqrtRatio(d, a, b, qr, y) ==
  LET u == regs[a] v == regs[b] IN
  /\ v # F0
  /\ FMul(FSq(y), v) = IF qr \/ u = F0 THEN u ELSE FMul(Z, u)
  /\ (u # F0 => qr = IsSquare(FDiv(u, v)))
  /\ Set(d, y)
=============================================================================
