----------------------------- MODULE MC_Scalar -----------------------------
(* Exhaustive exploration of ScalarMachine over a small prime: every register contents, every
   operation, with the laws of a field and the defining equations as invariants. *)
EXTENDS ScalarMachine, TLC
Ints == 0..(2 * P)
Exps == 0..P
Seqs == {<<>>} \cup {<<a>> : a \in Reg} \cup {<<a, b>> : a \in Reg, b \in Reg}
Next == \E d \in Reg : \/ Zero(d) \/ One(d)
                       \/ \E v \in Ints : FromInt(d, v) \/ FromBytes(d, v)
                       \/ \E a \in Reg : \/ Neg(d, a) \/ Double(d, a) \/ Square(d, a) \/ Invert(d, a)
                                         \/ \E e \in Exps : Pow(d, a, e)
                                         \/ \E b \in Reg : \/ Add(d, a, b) \/ Sub(d, a, b) \/ Mul(d, a, b)
                                                           \/ \E bit \in {0, 1} : Select(d, a, b, bit)
                       \/ \E s \in Seqs : \/ Sum(d, s) \/ Product(d, s)
                                          \/ (Cardinality(ToSet(s)) = Len(s) /\ BatchInvert(s))
Spec == Init /\ [][Next]_regs

TypeOK == \A r \in Reg : IsElem(regs[r])
Laws == \A r, s, t \in Reg : LET a == regs[r] b == regs[s] c == regs[t] IN
  /\ FAdd(a, b) = FAdd(b, a) /\ FMul(a, b) = FMul(b, a)
  /\ FAdd(FAdd(a, b), c) = FAdd(a, FAdd(b, c)) /\ FMul(FMul(a, b), c) = FMul(a, FMul(b, c))
  /\ FMul(a, FAdd(b, c)) = FAdd(FMul(a, b), FMul(a, c))
  /\ FAdd(a, F0) = a /\ FMul(a, F1) = a /\ FAdd(a, FNeg(a)) = F0 /\ FSub(a, b) = FAdd(a, FNeg(b))
  /\ (a # F0 => FMul(a, FInv(a)) = F1 /\ FInv(FInv(a)) = a) /\ FInv(F0) = F0
  /\ FPow(a, P) = a /\ FSq(a) = FMul(a, a) /\ FDbl(a) = FAdd(a, a)
  /\ (IsSquare(a) <=> \E x \in 0..(P-1) : FMul(x, x) = a)
BatchLaw == \A s \in Seqs : BatchDefined(s) => FMul(BatchResult(s), FProd(AllOf(s))) = F1
\* wide strings: the two-digit split the code uses gives the same residue as the whole number
WideLaw == \A lo, hi \in 0..7 : Reduce(lo + 8 * hi) = FAdd(Reduce(lo), FMul(Reduce(8), Reduce(hi)))
=============================================================================
