----------------------------- MODULE Poseidon -----------------------------
(* The Poseidon permutation of width 3, and the derivation of its parameters from the Grain generator
   (generate_params_poseidon.sage): round keys and the Cauchy matrix are defined here, not copied. *)
EXTENDS Field, SequencesExt
CONSTANTS FullRounds, PartialRounds, Bits      \* Bits: length of the modulus

\* ---- the Grain LFSR in self-shrinking mode
RECURSIVE BitSeq(_, _)
BitSeq(n, w) == IF w = 0 THEN <<>> ELSE Append(BitSeq(n \div 2, w - 1), n % 2)
Grain0 == BitSeq(1, 2) \o BitSeq(0, 4) \o BitSeq(Bits, 12) \o BitSeq(3, 12) \o BitSeq(FullRounds, 10) \o BitSeq(PartialRounds, 10) \o [i \in 1..30 |-> 1]
Clock(s) == Now(Append(Tail(s), (s[63] + s[52] + s[39] + s[24] + s[14] + s[1]) % 2))
RECURSIVE Clocks(_, _)
Clocks(s, n) == IF n = 0 THEN s ELSE Clocks(Clock(s), n - 1)
RECURSIVE NextBit(_)                           \* pairs of bits; the second counts when the first is 1
NextBit(s) == LET a == Clock(s) b == Clock(a) IN IF a[80] = 1 THEN b ELSE NextBit(b)
Draw(s) == FoldLeft(LAMBDA acc, k : LET t == NextBit(acc[1]) IN Now(<<t, BAdd(BMul(acc[2], N(2)), N(t[80]))>>),
                    <<s, N(0)>>, [k \in 1..Bits |-> k])           \* <<state, number>>
RECURSIVE DrawElem(_)
DrawElem(s) == LET d == Draw(s) IN IF BLt(d[2], P) THEN d ELSE DrawElem(d[1])
NumKeys == 3 * (FullRounds + PartialRounds)
Keys == Now(FoldLeft(LAMBDA acc, k : LET d == DrawElem(acc[1]) IN Now(<<d[1], Append(acc[2], d[2])>>),
                 <<Clocks(Grain0, 160), <<>>>>, [k \in 1..NumKeys |-> k]))
RoundKey == Keys[2]
RECURSIVE DrawMds(_)
DrawMds(s) ==
  LET d == FoldLeft(LAMBDA acc, k : LET x == Draw(acc[1]) IN Now(<<x[1], Append(acc[2], BMod(x[2], P))>>),
                    <<s, <<>>>>, [k \in 1..6 |-> k])
      v == d[2]
  IN IF (\A i, j \in 1..6 : i # j => v[i] # v[j]) /\ (\A i, j \in 1..3 : FAdd(v[i], v[3 + j]) # F0)
     THEN Now([i \in 1..3 |-> [j \in 1..3 |-> FInv(FAdd(v[i], v[3 + j]))]]) ELSE DrawMds(d[1])
Mds == Now(DrawMds(Keys[1]))

\* ---- the permutation
Sbox(x) == FMul(FSq(FSq(x)), x)
IsFull(r) == r <= FullRounds \div 2 \/ r > FullRounds \div 2 + PartialRounds
AddKeys(K, s, r) == [i \in 1..3 |-> FAdd(s[i], K[3 * (r - 1) + i])]
Mix(M, s) == [i \in 1..3 |-> FAdd(FAdd(FMul(M[i][1], s[1]), FMul(M[i][2], s[2])), FMul(M[i][3], s[3]))]
Boxes(s, r) == [i \in 1..3 |-> IF i = 1 \/ IsFull(r) THEN Sbox(s[i]) ELSE s[i]]
RoundOf(K, M, s, r) == Now(Mix(M, Now(Boxes(Now(AddKeys(K, s, r)), r))))
Permute(s) == FoldLeft(LAMBDA acc, r : RoundOf(RoundKey, Mds, acc, r), s, [r \in 1..(FullRounds + PartialRounds) |-> r])
Hash2(a, b) == Permute(<<F(3), a, b>>)[2]
=============================================================================
