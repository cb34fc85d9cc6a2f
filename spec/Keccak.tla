------------------------------ MODULE Keccak ------------------------------
(* Keccak-f[1600] and the sponge, as in FIPS 202: lanes are 64-bit numbers, A[x + 5y + 1]. *)
EXTENDS Big, SequencesExt

W64 == BPow2(64)
Mask == BSub(W64, BOf(1))
Rot(v, k) == IF k = 0 THEN v ELSE BAdd(BMod(BMul(v, BPow2(k)), W64), BDiv(v, BPow2(64 - k)))
Ln(A, x, y) == A[(x % 5) + 5 * (y % 5) + 1]
Lanes(f(_, _)) == Now([i \in 1..25 |-> f((i - 1) % 5, (i - 1) \div 5)])

\* rho offsets: (t+1)(t+2)/2 along the walk (x, y) -> (y, 2x + 3y) from (1, 0)
RECURSIVE Walk(_, _, _, _)
Walk(t, x, y, acc) == IF t = 24 THEN acc
                      ELSE Walk(t + 1, y, (2 * x + 3 * y) % 5, [acc EXCEPT ![x + 5 * y + 1] = (((t + 1) * (t + 2)) \div 2) % 64])
RhoOff == Now(Walk(0, 1, 0, [i \in 1..25 |-> 0]))

\* iota constants: bit 2^j - 1 of round i is the LFSR output rc(j + 7i)
RECURSIVE Lfsr(_, _)
Lfsr(t, r) == IF t = 0 THEN r[1]
              ELSE LET s == <<0>> \o r                       \* R = 0 || R
                       u == [s EXCEPT ![1] = (s[1] + s[9]) % 2, ![5] = (s[5] + s[9]) % 2, ![6] = (s[6] + s[9]) % 2, ![7] = (s[7] + s[9]) % 2]
                   IN Lfsr(t - 1, SubSeq(u, 1, 8))
RcBit(t) == Lfsr(t % 255, <<1, 0, 0, 0, 0, 0, 0, 0>>)
RECURSIVE RcTo(_, _)
RcTo(i, j) == IF j < 0 THEN BOf(0) ELSE BAdd(RcTo(i, j - 1), IF RcBit(j + 7 * i) = 1 THEN BPow2((2 ^ j) - 1) ELSE BOf(0))
Rc == Now([i \in 1..24 |-> RcTo(i - 1, 6)])

X5(a, b, c, d, e) == BXor(a, BXor(b, BXor(c, BXor(d, e))))
Theta(A) == LET C == Now([x \in 1..5 |-> X5(Ln(A, x - 1, 0), Ln(A, x - 1, 1), Ln(A, x - 1, 2), Ln(A, x - 1, 3), Ln(A, x - 1, 4))])
                D == Now([x \in 1..5 |-> BXor(C[((x + 3) % 5) + 1], Rot(C[(x % 5) + 1], 1))])
            IN Now([i \in 1..25 |-> BXor(A[i], D[((i - 1) % 5) + 1])])
Rho(A) == Now([i \in 1..25 |-> Rot(A[i], RhoOff[i])])
Pi(A) == Lanes(LAMBDA x, y : Ln(A, x + 3 * y, x))
Chi(A) == Lanes(LAMBDA x, y : BXor(Ln(A, x, y), BAnd(BXor(Ln(A, x + 1, y), Mask), Ln(A, x + 2, y))))
Iota(A, r) == [A EXCEPT ![1] = BXor(A[1], Rc[r])]
OneRound(A, r) == Now(Iota(Chi(Pi(Rho(Theta(A)))), r))
KeccakF(A) == FoldLeft(OneRound, A, [r \in 1..24 |-> r])

\* ---- sponge over byte strings (hexadecimal)
Zero25 == Now([i \in 1..25 |-> BOf(0)])
RECURSIVE HexRep(_, _)
HexRep(h, n) == IF n = 0 THEN "" ELSE HexCat(HexRep(h, n - 1), h)
Pad(h, rate, suffix) ==                       \* suffix: the domain bits and the first padding bit
  LET k == rate - (HexLen(h) % rate)
  IN HexCat(h, IF k = 1 THEN BToBE(BXor(BFromBE(suffix), BOf(128)), 1)
               ELSE HexCat(suffix, HexCat(HexRep("00", k - 2), "80")))
AbsorbBlock(A, b, rate) ==
  KeccakF(Now([i \in 1..25 |-> IF 8 * i <= rate THEN BXor(A[i], BFromLE(HexSub(b, 8 * (i - 1), 8 * i))) ELSE A[i]]))
RECURSIVE AbsorbTo(_, _, _)
AbsorbTo(h, rate, n) == IF n = 0 THEN Zero25 ELSE AbsorbBlock(AbsorbTo(h, rate, n - 1), HexSub(h, rate * (n - 1), rate * n), rate)
RECURSIVE LanesHex(_, _)
LanesHex(A, n) == IF n = 0 THEN "" ELSE HexCat(LanesHex(A, n - 1), BToLE(A[n], 8))
RECURSIVE Squeeze(_, _, _)
Squeeze(A, rate, len) ==
  LET blk == LanesHex(A, rate \div 8)
  IN IF len <= rate THEN HexSub(blk, 0, len) ELSE HexCat(blk, Squeeze(KeccakF(A), rate, len - rate))
Sponge(h, rate, suffix, len) == LET m == Pad(h, rate, suffix) IN Squeeze(AbsorbTo(m, rate, HexLen(m) \div rate), rate, len)
Shake256(h, len) == Sponge(h, 136, "1f", len)
Keccak256(h) == Sponge(h, 136, "01", 32)
=============================================================================
