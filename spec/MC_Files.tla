------------------------------ MODULE MC_Files ------------------------------
(* Files of small circuits and witnesses, written in every order of sections, then damaged: cut short at
   every length, or with one field changed. *)
EXTENDS Wtns, TLC
CONSTANTS Vals, MaxC
VARIABLES kind, c, order, h, damage

Lcs == {<<>>} \cup {<<<<BOf(w), v>>>> : w \in {0, 1}, v \in Vals}
OneCon == {<<a, b, k>> : a \in Lcs, b \in Lcs, k \in {<<>>, <<<<BOf(1), BOf(1)>>, <<BOf(0), BOf(2)>>>>}}
ConSets == {<<>>} \cup {<<k>> : k \in OneCon} \cup (IF MaxC < 2 THEN {} ELSE {<<k, k>> : k \in OneCon})
Circuits == {[prime |-> Q, wires |-> BOf(2), pubOut |-> BOf(1), pubIn |-> BOf(0), prvIn |-> BOf(0), labels |-> BOf(5), cons |-> k, map |-> <<BOf(0), BOf(3)>>] : k \in ConSets}
Orders == {<<<<1>>, <<2>>, <<3>>>>, <<<<2>>, <<1>>, <<3>>>>, <<<<3>>, <<2>>, <<1>>>>, <<<<3>>, <<1>>, <<2>>>>,
           <<<<2>>, <<9, "00ff11">>, <<3>>, <<1>>>>, <<<<4, "">>, <<1>>, <<3>>, <<2>>, <<5, "72">>>>}
Wits == {[prime |-> Q, vals |-> v] : v \in {<<>>} \cup {<<a>> : a \in Vals} \cup {<<a, b>> : a \in Vals, b \in Vals}}

Init == /\ damage = "none"
        /\ \/ kind = "r1cs" /\ c \in Circuits /\ order \in Orders /\ h = Write(c, order)
           \/ kind = "wtns" /\ c \in Wits /\ order = <<>> /\ \E v \in 0..2 : h = WrWtns(v, c)
Put(at, bytes) == HexCat(HexCat(HexSub(h, 0, at), bytes), HexSub(h, at + HexLen(bytes), HexLen(h)))
Cut(k) == h' = HexSub(h, 0, k) /\ damage' = "cut"
\* offsets of the header section and of the map section
RECURSIVE Off(_, _)
Off(t, i) == IF order[i][1] = t THEN 24 + FoldLeft(LAMBDA a, j : a + HexLen(SecOf(c, order[j])), 0, [j \in 1..(i - 1) |-> j]) ELSE Off(t, i + 1)
Hdr == Off(1, 1)
Field(at, bytes) == h' = Put(at, bytes) /\ h' # h /\ damage' = "field"
Damage ==
  \/ \E k \in 0..(HexLen(h) - 1) : Cut(k)
  \/ kind = "r1cs" /\ \/ \E x \in {"51314353", "00000000"} : Field(0, x)
                      \/ \E v \in {0, 2, 256} : Field(4, U32(BOf(v)))
                      \/ \E v \in {0, 1, 2, 4} : v # Len(order) /\ v < 3 /\ Field(8, U32(BOf(v)))
                      \/ Field(8, U32(BOf(Len(order) + 1)))
                      \/ \E v \in {31, 33, 0, 8192} : Field(Hdr, U32(BOf(v)))
                      \/ \E v \in {63, 65, 0} : Field(Hdr - 8, U64(BOf(v)))
                      \/ \E v \in {0, 1, 3} : Field(Hdr + 36, U32(BOf(v)))
                      \/ \E v \in 0..3 : v # Len(c.cons) /\ Field(Hdr + 60, U32(BOf(v)))
                      \/ \E v \in {8, 15, 24} : Field(Off(3, 1) - 8, U64(BOf(v)))
                      \/ \E v \in {1, 255} : Field(Off(3, 1), U64(BOf(v)))
                      \/ \E v \in {12 * Len(c.cons) - 1, 0, 500} : v >= 0 /\ Field(Off(2, 1) - 8, U64(BOf(v)))
  \/ kind = "wtns" /\ \/ Field(0, "51314353") \/ Field(4, W32(BOf(3))) \/ \E v \in {0, 1, 3} : Field(8, W32(BOf(v)))
                      \/ \E v \in {0, 2} : Field(12, W32(BOf(v)))
                      \/ \E v \in {39, 41, 0} : Field(16, W64(BOf(v)))
                      \/ \E v \in {31, 33} : Field(24, W32(BOf(v)))
                      \/ \E v \in 0..3 : Field(60, W32(BOf(v)))
                      \/ \E v \in {1, 3} : Field(64, W32(BOf(v)))
                      \/ \E v \in {0, 31, 32, 64} : Field(68, W64(BOf(v)))
Next == damage = "none" /\ Damage /\ UNCHANGED <<kind, c, order>>
Spec == Init /\ [][Next]_<<kind, c, order, h, damage>>
Exact == damage = "none" => IF kind = "r1cs" THEN Parse(h) = [ok |-> TRUE, circuit |-> c] ELSE ParseWtns(h) = [ok |-> TRUE, vals |-> c.vals]
RefusesDamage == damage # "none" => IF kind = "r1cs" THEN ~Parse(h).ok ELSE ~ParseWtns(h).ok
NotAmbiguous == kind = "r1cs" /\ damage = "none" => ~Ambiguous(h)
=============================================================================
