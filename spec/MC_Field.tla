------------------------------ MODULE MC_Field ------------------------------
(* Every register contents over a small prime: roots exist exactly for squares, the ratio root is
   total for a nonzero denominator, and both determine their result up to sign. *)
EXTENDS FieldMachine, TLC
E == 0..(P - 1)
Next == \E d, a, b \in Reg, y \in E : \/ Cube(d, a) \/ PowBy(d, a, b)
                                     \/ SqrtSome(d, a, y) \/ SqrtNone(a)
                                     \/ \E q \in BOOLEAN : SqrtRatio(d, a, b, q, y)
                                     \/ FromInt(d, y)
Spec == Init /\ [][Next]_regs
TypeOK == \A r \in Reg : IsElem(regs[r])
RootLaw == \A r \in Reg : (\E y \in E : FSq(y) = regs[r]) <=> IsSquare(regs[r])
\* some answer is always allowed, and any two allowed answers differ at most in sign and (for 0) the flag
RatioLaw == \A r, s \in Reg : LET u == regs[r] v == regs[s]
                                  ok(q, y) == FMul(FSq(y), v) = (IF q \/ u = F0 THEN u ELSE FMul(Z, u))
                                              /\ (u # F0 => q = IsSquare(FDiv(u, v)))
                                  ans == {x \in BOOLEAN \X E : ok(x[1], x[2])} IN
  v # F0 => /\ ans # {}
            /\ \A x, y \in ans : x[2] = y[2] \/ x[2] = FNeg(y[2])
            /\ (u # F0 => \A x, y \in ans : x[1] = y[1])
=============================================================================
