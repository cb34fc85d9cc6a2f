--------------------------- MODULE ScalarMachine ---------------------------
(* A register machine over the prime field: what the proof system's scalar type is supposed to be.
   One action per public operation of the type; a register always holds a field element.  The same
   actions are explored exhaustively over small primes (MC_Scalar) and bound to the real type by
   TraceScalar, whose steps are the operations a driver performed on the real code. *)
EXTENDS Field, FiniteSets, SequencesExt
CONSTANT Reg
VARIABLE regs

Init == regs = [r \in Reg |-> F0]
Set(d, v) == regs' = [regs EXCEPT ![d] = v]

\* ---- the value each operation is to produce
Reduce(v) == BMod(v, P)                       \* raw integers, 64-bit integers, 512-bit strings
Canonical(v) == BLt(v, P)                     \* which 32-byte strings denote an element
InverseOf(a) == FInv(a)
AllOf(rs) == [i \in 1..Len(rs) |-> regs[rs[i]]]

\* ---- the actions
Zero(d) == Set(d, F0)
One(d) == Set(d, F1)
FromInt(d, v) == Set(d, Reduce(v))
FromBytes(d, v) == IF Canonical(v) THEN Set(d, v) ELSE UNCHANGED regs
Add(d, a, b) == Set(d, FAdd(regs[a], regs[b]))
Sub(d, a, b) == Set(d, FSub(regs[a], regs[b]))
Mul(d, a, b) == Set(d, FMul(regs[a], regs[b]))
Neg(d, a) == Set(d, FNeg(regs[a]))
Double(d, a) == Set(d, FDbl(regs[a]))
Square(d, a) == Set(d, FSq(regs[a]))
Pow(d, a, e) == Set(d, FPow(regs[a], e))
Invert(d, a) == IF regs[a] = F0 THEN UNCHANGED regs ELSE Set(d, InverseOf(regs[a]))
BatchDefined(rs) == \A i \in 1..Len(rs) : regs[rs[i]] # F0
BatchResult(rs) == FProd([i \in 1..Len(rs) |-> InverseOf(regs[rs[i]])])
BatchInvert(rs) ==                            \* rs without repetitions
  /\ BatchDefined(rs)
  /\ regs' = [r \in Reg |-> IF \E i \in 1..Len(rs) : rs[i] = r THEN InverseOf(regs[r]) ELSE regs[r]]
Sum(d, rs) == Set(d, FSum(AllOf(rs)))
Product(d, rs) == Set(d, FProd(AllOf(rs)))
Select(d, a, b, bit) == Set(d, IF bit = 1 THEN regs[b] ELSE regs[a])
=============================================================================
