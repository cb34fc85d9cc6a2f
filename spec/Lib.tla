-------------------------------- MODULE Lib --------------------------------
(* The TypeScript library, as a user sees it: the public values of a signature, their serialised form,
   and the verdict of the verifier.  An ECDSA signature (r, s) with parity v on the message hash m under
   the key K satisfies K = s T + U with T = R/r and U = -(m/r) G, R being the point with x-coordinate r. *)
EXTENDS Field, Ec, SequencesExt
CONSTANTS Q,                     \* the order of the group
          B7,                    \* the curve is y^2 = x^3 + B7
          G,                     \* the generator
          Enc(_, _), Dec(_),     \* a number as a given number of digits, and back
          Cat(_, _), Part(_, _, _), Size(_),
          W                      \* digits of a field element

CurveRhs(x) == FAdd(FMul(FSq(x), x), B7)
LiftX(x, odd) == LET y == BSqrt(CurveRhs(x), P) IN <<x, IF FOdd(y) = odd THEN y ELSE FNeg(y)>>
IsX(x) == BLt(x, P) /\ IsSquare(CurveRhs(x))
OddOf(v) == BMod(BSub(BAdd(v, N(256)), N(27)), N(2)) = N(1)         \* 27 even, 28 odd
Times(k, X) == EcMul(P, F0, BMod(k, Q), X)
Plus(X, Y) == EcAdd(P, F0, X, Y)

\* ---- the public values of a signature
InRange(r) == BLt(N(0), r) /\ BLt(r, Q)
HasT(r) == InRange(r) /\ IsX(r)
TOf(r, v) == Times(BInvMod(r, Q), LiftX(r, OddOf(v)))
UOf(r, m) == Times(BMod(BMul(BInvMod(r, Q), BSub(Q, BMod(m, Q))), Q), G)
HasU(m) == BMod(m, Q) # N(0)                  \* otherwise U is infinity and has no coordinates
Defined(r, m) == HasT(r) /\ HasU(m)
KeyOf(s, T, U) == Plus(Times(s, T), U)
\* a public input p has r, v, m (a number), root, Tx, Ty, Ux, Uy
Matches(p) == Defined(p.r, p.m) /\ <<p.Tx, p.Ty>> = TOf(p.r, p.v) /\ <<p.Ux, p.Uy>> = UOf(p.r, p.m)

\* ---- the serialised form: r, v, the five circuit fields, the message hash as it is
Five(p) == <<p.root, p.Tx, p.Ty, p.Ux, p.Uy>>
SerFive(p) == FoldLeft(LAMBDA acc, x : Cat(acc, Enc(x, W)), Enc(p.root, W), SubSeq(Five(p), 2, 5))
Ser(p, msg) == Cat(Cat(Cat(Enc(p.r, W), Enc(p.v, 1)), SerFive(p)), msg)
HeadLen == 6 * W + 1
FieldAt(h, k) == Dec(Part(h, W + 1 + W * k, W + 1 + W * (k + 1)))
MsgAt(h) == Part(h, HeadLen, Size(h))
Deser(h, msgNum) == [r |-> Dec(Part(h, 0, W)), v |-> Dec(Part(h, W, W + 1)), m |-> msgNum, root |-> FieldAt(h, 0),
                     Tx |-> FieldAt(h, 1), Ty |-> FieldAt(h, 2), Ux |-> FieldAt(h, 3), Uy |-> FieldAt(h, 4)]
=============================================================================
