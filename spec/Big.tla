------------------------------- MODULE Big -------------------------------
(* Natural numbers of any size, and byte strings.

   The definitions below are the meaning of the operators on TLA+ integers.  TLC integers are 32 bits
   wide, so java/BigOverrides.java evaluates the same operators on numbers of any size, which it writes
   as strings of hexadecimal digits: an operator applied to integers only yields an integer, otherwise a
   string.  MC_Big.tla checks that the replacement agrees with these definitions.  With BIG = FALSE a
   specification that uses these operators is a plain integer specification that TLC explores
   exhaustively over a small field; with BIG = TRUE the same text is evaluated on the values that the
   real code produced. *)
EXTENDS Integers, Sequences

RECURSIVE Pow2I(_)
Pow2I(k) == IF k = 0 THEN 1 ELSE 2 * Pow2I(k - 1)

BOf(n) == n                                   \* an integer literal as a "big" number
BAdd(a, b) == a + b
BSub(a, b) == a - b
BMul(a, b) == a * b
BMod(a, m) == a % m
BDiv(a, m) == a \div m
BLt(a, b) == a < b
RECURSIVE BPowModI(_, _, _)
BPowModI(b, e, m) == IF e = 0 THEN 1 % m
                     ELSE LET h == BPowModI((b * b) % m, e \div 2, m)
                          IN IF e % 2 = 1 THEN (h * b) % m ELSE h
BPowMod(b, e, m) == BPowModI(b % m, e, m)
BInvMod(a, m) == IF \E x \in 0..(m-1) : (a * x) % m = 1 % m
                 THEN CHOOSE x \in 0..(m-1) : (a * x) % m = 1 % m ELSE 0
\* the smaller square root of a square
BSqrt(a, m) == CHOOSE x \in 0..(m \div 2) : (x * x) % m = a % m
BPow2(k) == Pow2I(k)
BInt(a) == a                                  \* as an integer of TLC, -1 if it is too large for that
BBit(a, k) == (a \div Pow2I(k)) % 2
RECURSIVE BLenI(_)
BLenI(a) == IF a = 0 THEN 0 ELSE 1 + BLenI(a \div 2)
BLen(a) == BLenI(a)
BBits(a, n) == [k \in 1..n |-> BBit(a, k - 1)]
RECURSIVE BXorI(_, _)
BXorI(a, b) == IF a = 0 THEN b ELSE IF b = 0 THEN a
               ELSE ((a + b) % 2) + 2 * BXorI(a \div 2, b \div 2)
BXor(a, b) == BXorI(a, b)
RECURSIVE BAndI(_, _)
BAndI(a, b) == IF a = 0 \/ b = 0 THEN 0
               ELSE (IF a % 2 = 1 /\ b % 2 = 1 THEN 1 ELSE 0) + 2 * BAndI(a \div 2, b \div 2)
BAnd(a, b) == BAndI(a, b)

(* Byte strings (hexadecimal, two digits per byte); only meaningful with the replacement. *)
BFromBE(h) == h
BFromLE(h) == h
BToBE(a, n) == a
BToLE(a, n) == a
HexLen(h) == 0
HexSub(h, a, b) == h
HexCat(a, b) == a
HexOf(s) == s

(* The same value; the replacement makes TLC evaluate it once, here, instead of at each use. *)
Now(v) == v

BLe(a, b) == ~BLt(b, a)
=============================================================================
