------------------------------- MODULE MC_Lib -------------------------------
(* Every key, nonce and message over a small curve: the public values give back the key, and the check of
   public values accepts them and nothing else; every public input of a small base survives its
   serialised form, and no two share one. *)
EXTENDS Lib, TLC
CONSTANTS Base, Lim, ValMax
VARIABLES mode, a, b, c, x
vars == <<mode, a, b, c, x>>

\* digits, most significant first
RECURSIVE DigTo(_, _)
DigTo(n, w) == IF w = 0 THEN <<>> ELSE Append(DigTo(n \div Base, w - 1), n % Base)
RECURSIVE NumTo(_)
NumTo(h) == IF h = <<>> THEN 0 ELSE NumTo(SubSeq(h, 1, Len(h) - 1)) * Base + h[Len(h)]
SCat(s, t) == s \o t
SPart(s, i, j) == SubSeq(s, i + 1, j)
SLen(s) == Len(s)

Init == mode = "start" /\ a = 0 /\ b = 0 /\ c = 0 /\ x = 0
Sign == mode = "start" /\ mode' = "sign" /\ a' \in 1..(Q - 1) /\ b' \in 1..(Q - 1) /\ c' \in 0..Lim /\ x' = 0
Code == mode = "start" /\ mode' = "code" /\ a' \in 0..ValMax /\ b' \in 0..ValMax /\ c' \in 0..ValMax /\ x' \in 0..(Base - 1)
Next == Sign \/ Code \/ (mode # "start" /\ UNCHANGED vars)
Spec == Init /\ [][Next]_vars

\* key a, nonce b, message c
R == Times(b, G)
r == R[1] % Q
s == (BInvMod(b, Q) * (c + r * a)) % Q
v == IF FOdd(R[2]) THEN 28 ELSE 27
Pub(T, U, rr, vv, mm) == [r |-> rr, v |-> vv, m |-> mm, root |-> 0, Tx |-> T[1], Ty |-> T[2], Ux |-> U[1], Uy |-> U[2]]
\* R.x below the order: what v of 27 and 28 can say
Signature == mode = "sign" /\ R[1] < Q /\ r # 0 /\ c % Q # 0
GivesKey == Signature => KeyOf(s, TOf(r, v), UOf(r, c)) = Times(a, G)
AcceptsOwn == Signature => Matches(Pub(TOf(r, v), UOf(r, c), r, v, c))
Points == {Times(k, G) : k \in 1..(Q - 1)}
AcceptsOnly == Signature =>
  LET T == TOf(r, v) U == UOf(r, c)
  IN /\ \A X \in Points : (X # T => ~Matches(Pub(X, U, r, v, c))) /\ (X # U => ~Matches(Pub(T, X, r, v, c)))
     /\ \A d \in 0..Lim : (d % Q # c % Q) => ~Matches(Pub(T, U, r, v, d))
     /\ \A q \in 0..(Q + 2) : q # r => ~Matches(Pub(T, U, q, v, c))
     /\ ~Matches(Pub(T, U, r, 55 - v, c))

CPub == [r |-> a, v |-> x, m |-> 0, root |-> b, Tx |-> c, Ty |-> (a + b) % (ValMax + 1), Ux |-> (b + c) % (ValMax + 1), Uy |-> (a + c) % (ValMax + 1)]
Msgs == {<<>>, <<0>>, <<1>>, <<0, 1>>}
RoundTrip == mode = "code" => \A msg \in Msgs :
  LET h == Ser(CPub, msg) IN Len(h) = HeadLen + Len(msg) /\ Deser(h, 0) = CPub /\ MsgAt(h) = msg
                             /\ SerFive(CPub) = SPart(h, W + 1, HeadLen)
=============================================================================
