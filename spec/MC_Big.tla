------------------------------- MODULE MC_Big -------------------------------
(* The replacement of Big and Ec (java/BigOverrides.java) against their definitions: on integers, on the
   same numbers as strings, and on numbers of two digits to a base of 2^61. *)
EXTENDS Ec, TLC
CONSTANTS Max,        \* numbers 0..Max
          Curves      \* <<p, a, b>>
VARIABLES a, b, m, cv, X, Y
vars == <<a, b, m, cv, X, Y>>
Points(c) == {<<>>} \cup {<<x, y>> \in (0..(c[1] - 1)) \X (0..(c[1] - 1)) : EcOnCurve(c[1], c[2], c[3], <<x, y>>)}
Start == a = 0 /\ b = 0 /\ m = 1 /\ cv = <<>> /\ X = <<>> /\ Y = <<>>
Init == Start
Next == \/ cv = <<>> /\ \E i, j \in 0..Max, k \in 1..Max : a' = i /\ b' = j /\ m' = k /\ cv' = <<0>> /\ UNCHANGED <<X, Y>>
        \/ cv = <<>> /\ \E c \in Curves : cv' = c /\ (\E S, T \in Points(c) : X' = S /\ Y' = T) /\ \E k \in 0..Max : a' = k /\ UNCHANGED <<b, m>>
Spec == Init /\ [][Next]_vars
H(n) == BOf(n)
Same(s, n) == s = H(n)                            \* strings have one form
Numbers == cv = <<0>> =>
  /\ BAdd(a, b) = a + b /\ BSub(a, b) = a - b /\ BMul(a, b) = a * b /\ BMod(a, m) = a % m /\ BDiv(a, m) = a \div m /\ BLt(a, b) = (a < b)
  /\ Same(BAdd(H(a), H(b)), a + b) /\ Same(BMul(H(a), H(b)), a * b) /\ Same(BMod(H(a), H(m)), a % m) /\ Same(BDiv(H(a), H(m)), a \div m)
  /\ BLt(H(a), H(b)) = (a < b) /\ (a >= b => Same(BSub(H(a), H(b)), a - b)) /\ BInt(H(a)) = a
  /\ BPowMod(a, b, m) = BPowModI(a % m, b, m) /\ Same(BPowMod(H(a), H(b), H(m)), BPowModI(a % m, b, m))
  /\ Same(BXor(H(a), H(b)), BXorI(a, b)) /\ Same(BAnd(H(a), H(b)), BAndI(a, b)) /\ BLen(H(a)) = BLenI(a)
  /\ BBits(H(a), 8) = [k \in 1..8 |-> (a \div Pow2I(k - 1)) % 2]
  /\ (\A k \in 0..8 : BBit(H(a), k) = (a \div Pow2I(k)) % 2)
  /\ LET i == BInvMod(a, m) IN IF \E x \in 0..(m - 1) : (a * x) % m = 1 % m THEN i \in 0..(m - 1) /\ (a * i) % m = 1 % m ELSE i = 0
  /\ Same(BInvMod(H(a), H(m)), BInvMod(a, m))
  \* byte strings
  /\ BFromBE(BToBE(H(a), 3)) = H(a) /\ BFromLE(BToLE(H(a), 3)) = H(a) /\ HexLen(BToBE(H(a), 3)) = 3
  /\ Same(BFromBE(HexCat(BToBE(H(a), 2), BToBE(H(b), 2))), a * 65536 + b) /\ Same(BFromLE(HexCat(BToBE(H(a % 256), 1), BToBE(H(b % 256), 1))), ((b % 256) * 256) + (a % 256))
  /\ HexSub(HexCat(BToBE(H(a), 2), BToBE(H(b), 2)), 2, 4) = BToBE(H(b), 2)
\* numbers beyond TLC's integers: two digits, by the laws of the digits
Base == BPow2(61)
Two(i, j) == BAdd(BMul(H(i), Base), H(j))
Digits == cv = <<0>> =>
  LET u == Two(a, b) v == Two(m, a) IN
  /\ BMod(u, Base) = H(b) /\ BDiv(u, Base) = H(a) /\ BFromBE(BToBE(u, 32)) = u /\ BFromLE(BToLE(u, 32)) = u
  /\ BAdd(u, v) = Two(a + m, a + b) /\ BLt(u, v) = (a < m \/ (a = m /\ b < a)) /\ (~BLt(v, u) => BSub(v, u) = BSub(BAdd(v, H(1)), BAdd(u, H(1))))
  /\ BMul(u, v) = BAdd(BMul(H(a * m), BMul(Base, Base)), BAdd(BMul(H(a * a + b * m), Base), H(a * b)))
  /\ BAdd(BMul(BDiv(u, v), v), BMod(u, v)) = u /\ BLt(BMod(u, v), v)
  /\ BMod(BMul(BInvMod(u, Two(Max + 1, 1)), u), Two(Max + 1, 1)) \in {H(0), H(1)} \/ BInvMod(u, Two(Max + 1, 1)) = H(0)
  /\ BPowMod(u, H(3), v) = BMod(BMul(u, BMul(u, u)), v)
Str(Z) == IF Z = <<>> THEN <<>> ELSE <<H(Z[1]), H(Z[2])>>
Roots == cv # <<>> /\ cv # <<0>> /\ X # <<>> =>
  LET r == BSqrt(BMod(BMul(X[2], X[2]), cv[1]), cv[1]) IN r \in {X[2], (cv[1] - X[2]) % cv[1]} /\ 2 * r <= cv[1]
Group == cv # <<>> /\ cv # <<0>> =>
  LET p == cv[1] c == cv[2] IN
  /\ EcAdd(p, c, X, Y) = EcAddDef(p, c, X, Y) /\ EcAdd(H(p), H(c), Str(X), Str(Y)) = Str(EcAddDef(p, c, X, Y))
  /\ EcMul(p, c, a, X) = EcMulDef(p, c, a, X) /\ EcMul(H(p), H(c), H(a), Str(X)) = Str(EcMulDef(p, c, a, X))
  /\ EcMsm(p, c, <<a, 2>>, <<X, Y>>) = EcMsmTo(p, c, <<a, 2>>, <<X, Y>>, 2)
  /\ EcOnCurve(p, c, cv[3], EcAdd(p, c, X, Y))
=============================================================================
