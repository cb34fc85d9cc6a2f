----------------------------- MODULE MC_Curve -----------------------------
(* Every register contents over a small curve of prime order: the group laws, the uniqueness of the
   compressed form, and that decoding accepts exactly the encodings of points. *)
EXTENDS Curve, TLC
E == 0..(P - 1)
Points == {<<x, y>> : x \in E, y \in E}
Curve_ == {X \in Points : OnCurve(X)} \cup {Inf}
Seqs == {<<>>} \cup {<<a>> : a \in Reg} \cup {<<a, b>> : a \in Reg, b \in Reg}
Next == \E d, a, b \in Reg : \/ Identity(d) \/ Generator(d)
                             \/ \E x, y \in E : FromXY(d, x, y)
                             \/ \E x \in E, o \in BOOLEAN : Decompress(d, o, x)
                             \/ Add(d, a, b) \/ Sub(d, a, b) \/ Neg(d, a) \/ Double(d, a)
                             \/ \E k \in 0..(Order + 1) : Mul(d, k, a)
                             \/ \E s \in Seqs : Sum(d, s) \/ Msm(d, [i \in 1..Len(s) |-> i + 1], s)
Spec == Init /\ [][Next]_pts

TypeOK == \A r \in Reg : pts[r] \in Curve_
GroupLaws == \A r, s, t \in Reg : LET X == pts[r] Y == pts[s] Z == pts[t] IN
  /\ PAdd(X, Y) = PAdd(Y, X) /\ PAdd(PAdd(X, Y), Z) = PAdd(X, PAdd(Y, Z))
  /\ PAdd(X, Inf) = X /\ PAdd(X, PNeg(X)) = Inf /\ PNeg(PNeg(X)) = X
  /\ PMul(Order, X) = Inf /\ PMul(2, X) = PDbl(X) /\ PMul(3, X) = PAdd(PDbl(X), X)
  /\ \A k, m \in 0..Order : PAdd(PMul(k, X), PMul(m, X)) = PMul(k + m, X)
CompressLaw == \A r \in Reg : LET X == pts[r] IN X # Inf =>
  /\ Decodable(X[1]) /\ Lift(X[1], FOdd(X[2])) = X
  /\ \A o \in BOOLEAN, x \in E : (Decodable(x) /\ Lift(x, o) = X) => <<o, x>> = Compress(X)
Counting == /\ Cardinality(Curve_) = Order
            /\ 2 * Cardinality({x \in E : Decodable(x)}) = Order - 1
            /\ \A x \in E, o \in BOOLEAN : Decodable(x) => OnCurve(Lift(x, o)) /\ FOdd(Lift(x, o)[2]) = o
=============================================================================
