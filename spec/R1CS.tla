------------------------------- MODULE R1CS -------------------------------
(* Rank-1 constraint systems over the field: satisfaction, padding, the matrices' multilinear extensions,
   and the conversion of a circuit.

   A system is [nc, nv, ni, A, B, C]: numbers of constraints, variables and inputs, and three sequences of
   entries <<row, column, value>> (several entries at one place add up).  Columns: variables, the constant
   one, inputs. *)
EXTENDS Field, SequencesExt

Z(sys, vars, inputs) == vars \o <<F1>> \o inputs
\* matrix times vector, as the sequence of its nc rows
MulVec(M, z, n) == Now(FoldLeft(LAMBDA acc, t : [acc EXCEPT ![t[1] + 1] = FAdd(@, FMul(t[3], z[t[2] + 1]))], [i \in 1..n |-> F0], M))
SatZ(sys, z) == LET a == MulVec(sys.A, z, sys.nc) b == MulVec(sys.B, z, sys.nc) c == MulVec(sys.C, z, sys.nc)
                IN \A i \in 1..sys.nc : FMul(a[i], b[i]) = c[i]
Sat(sys, vars, inputs) == SatZ(sys, Z(sys, vars, inputs))

\* ---------------------------------------------------------------- padding
RECURSIVE Pow2Ceil(_)
Pow2Ceil(n) == IF n <= 1 THEN 1 ELSE 2 * Pow2Ceil((n + 1) \div 2)
RECURSIVE Log2(_)
Log2(n) == IF n <= 1 THEN 0 ELSE 1 + Log2(n \div 2)
MaxOf(a, b) == IF a > b THEN a ELSE b
VarsPadded(sys) == Pow2Ceil(MaxOf(sys.nv, sys.ni + 1))
ConsPadded(sys) == Pow2Ceil(MaxOf(sys.nc, 2))
ShiftCol(sys, c) == IF c < sys.nv THEN c ELSE c - sys.nv + VarsPadded(sys)
PadMat(sys, M) == [i \in 1..Len(M) |-> <<M[i][1], ShiftCol(sys, M[i][2]), M[i][3]>>]
Pad(sys) == [nc |-> ConsPadded(sys), nv |-> VarsPadded(sys), ni |-> sys.ni,
             A |-> PadMat(sys, sys.A), B |-> PadMat(sys, sys.B), C |-> PadMat(sys, sys.C)]
PadVars(vars, n) == vars \o [i \in 1..(n - Len(vars)) |-> F0]
EntryOk(sys, t) == t[1] < sys.nc /\ t[2] < sys.nv + 1 + sys.ni
WellFormed(sys) == \A M \in {sys.A, sys.B, sys.C} : \A i \in 1..Len(M) : EntryOk(sys, M[i])

\* ---------------------------------------------------------------- multilinear extensions
\* the bits of i < 2^k, most significant first
RECURSIVE BitsOf(_, _)
BitsOf(i, k) == IF k = 0 THEN <<>> ELSE Append(BitsOf(i \div 2, k - 1), i % 2)
Chi(r, i) == FoldLeft(LAMBDA acc, t : FMul(acc, t), F1,
                      LET b == BitsOf(i, Len(r)) IN [k \in 1..Len(r) |-> IF b[k] = 1 THEN r[k] ELSE FSub(F1, r[k])])
MatMle(M, rx, ry) == FoldLeft(LAMBDA acc, t : FAdd(acc, FMul(t[3], FMul(Chi(rx, t[1]), Chi(ry, t[2])))), F0, M)
VecMle(v, r) == FoldLeft(LAMBDA acc, i : FAdd(acc, FMul(v[i], Chi(r, i - 1))), F0, [i \in 1..Len(v) |-> i])

\* ---------------------------------------------------------------- converting a circuit
(* The system a circuit becomes when its wires 1..npub are public: the assignment of wire 0 is the
   constant, wires 1..npub are the inputs; every other wire keeps its number as a variable. *)
WireCol(wires, npub, w) == IF w = 0 THEN wires ELSE IF w <= npub THEN wires + w ELSE w
ConvMat(cons, wires, npub, k) ==
  FlattenSeq([i \in 1..Len(cons) |-> [t \in 1..Len(cons[i][k]) |-> <<i - 1, WireCol(wires, npub, cons[i][k][t][1]), cons[i][k][t][2]>>]])
Convert(cons, wires, npub) ==
  [nc |-> Len(cons), nv |-> wires, ni |-> npub,
   A |-> ConvMat(cons, wires, npub, 1), B |-> ConvMat(cons, wires, npub, 2), C |-> ConvMat(cons, wires, npub, 3)]
\* a circuit is satisfied by an assignment of all its wires (z[1] is wire 0)
LcVal(v, z) == FoldLeft(LAMBDA acc, t : FAdd(acc, FMul(t[2], z[t[1] + 1])), F0, v)
CircuitSat(cons, z) == z[1] = F1 /\ \A i \in 1..Len(cons) : FMul(LcVal(cons[i][1], z), LcVal(cons[i][2], z)) = LcVal(cons[i][3], z)
\* the wires as the verifier fixes them, the rest from the prover's vector
Bound(vars, inputs, wires) == [i \in 1..wires |-> IF i = 1 THEN F1 ELSE IF i - 1 <= Len(inputs) THEN inputs[i - 1] ELSE vars[i]]
=============================================================================
