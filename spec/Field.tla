------------------------------ MODULE Field ------------------------------
(* The prime field with P elements: values are the numbers 0..P-1. *)
EXTENDS Big
CONSTANTS BIG,      \* TRUE: numbers are hexadecimal strings, FALSE: TLA+ integers
          P         \* the modulus

N(k) == IF BIG THEN BOf(k) ELSE k             \* the number k as written in this instance
F(k) == BMod(N(k), P)
F0 == N(0)
F1 == N(1)
IsElem(a) == BLe(N(0), a) /\ BLt(a, P)

FAdd(a, b) == BMod(BAdd(a, b), P)
FSub(a, b) == BMod(BSub(BAdd(a, P), b), P)
FNeg(a) == BMod(BSub(P, a), P)
FMul(a, b) == BMod(BMul(a, b), P)
FSq(a) == FMul(a, a)
FDbl(a) == FAdd(a, a)
FPow(a, e) == BPowMod(a, e, P)                \* e: any natural number
FInv(a) == BInvMod(a, P)                      \* 0 when a has no inverse
FDiv(a, b) == FMul(a, FInv(b))
FOdd(a) == BBit(a, 0) = 1
Half(a) == BDiv(a, N(2))
IsSquare(a) == a = F0 \/ FPow(a, Half(BSub(P, N(1)))) = F1      \* Euler's criterion

RECURSIVE FSumTo(_, _)
FSumTo(s, k) == IF k = 0 THEN F0 ELSE FAdd(FSumTo(s, k - 1), s[k])
FSum(s) == FSumTo(s, Len(s))
RECURSIVE FProdTo(_, _)
FProdTo(s, k) == IF k = 0 THEN F1 ELSE FMul(FProdTo(s, k - 1), s[k])
FProd(s) == FProdTo(s, Len(s))
FDot(s, t) == FSum([k \in 1..Len(s) |-> FMul(s[k], t[k])])
=============================================================================
