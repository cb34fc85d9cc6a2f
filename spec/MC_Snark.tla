------------------------------ MODULE MC_Snark ------------------------------
(* Why the committed matrices' values can be read off a memory: for every list of entries, the reads of a
   prover balance against the writes exactly when each returned what the cell holds; then the dot product
   of what was read is the matrix' value at the point. *)
EXTENDS Snark, TLC, Bags
CONSTANTS Cells,              \* of the memory: 2 ^ number of variables
          Ops,                \* entries per matrix
          Mats                \* matrices sharing the memory
VARIABLES stage, addr, val, read, r
vars == <<stage, addr, val, read, r>>
Grid(n, S) == [1..n -> S]
Init == stage = 0 /\ addr = <<>> /\ val = <<>> /\ read = <<>> /\ r = <<>>
Next == \/ stage = 0 /\ stage' = 1 /\ addr' \in Grid(Mats, Grid(Ops, 0..(Cells - 1))) /\ UNCHANGED <<val, read, r>>
        \/ stage = 1 /\ stage' = 2 /\ val' \in Grid(Cells, 0..1) /\ UNCHANGED <<addr, read, r>>
        \/ stage = 2 /\ stage' = 3 /\ read' \in Grid(Mats, Grid(Ops, 0..1)) /\ UNCHANGED <<addr, val, r>>
        \/ stage = 3 /\ stage' = 4 /\ r' \in Grid(Log2(Cells), 0..(P - 1)) /\ UNCHANGED <<addr, val, read>>
Spec == Init /\ [][Next]_vars

Stamps == Reads(addr, Cells)
BagOf(s) == FoldLeft(LAMBDA b, x : b (+) SetToBag({x}), EmptyBag, s)
All(f(_, _)) == FlattenSeq([j \in 1..Mats |-> [i \in 1..Ops |-> f(j, i)]])
Initial == [c \in 1..Cells |-> <<c - 1, val[c], 0>>]
Audit == [c \in 1..Cells |-> <<c - 1, val[c], Stamps.cnt[c]>>]
ReadSet == All(LAMBDA j, i : <<addr[j][i], read[j][i], Stamps.rd[j][i]>>)
WriteSet == All(LAMBDA j, i : <<addr[j][i], read[j][i], Stamps.rd[j][i] + 1>>)
Correct == \A j \in 1..Mats, i \in 1..Ops : read[j][i] = val[addr[j][i] + 1]
Balance == BagOf(Initial \o WriteSet) = BagOf(Audit \o ReadSet)
\* the memory argument, on multisets
ReadsAreTrue == stage >= 3 => (Balance <=> Correct)
\* what the proof compares: products of fingerprints; equal for equal multisets whatever the challenges
Mark(s, g1, g2) == FProd([i \in 1..Len(s) |-> Hash(F(s[i][1]), F(s[i][2]), F(s[i][3]), g1, g2)])
Fingerprints == stage = 3 /\ Correct => \A g1, g2 \in 0..(P - 1) : FMul(Mark(Initial, g1, g2), Mark(WriteSet, g1, g2)) = FMul(Mark(ReadSet, g1, g2), Mark(Audit, g1, g2))
\* and a wrong read is noticed by some challenges (the field is tiny: most of them, for the real one)
Noticed == stage = 3 /\ ~Correct => \E g1, g2 \in 0..(P - 1) : FMul(Mark(Initial, g1, g2), Mark(WriteSet, g1, g2)) # FMul(Mark(ReadSet, g1, g2), Mark(Audit, g1, g2))
\* the first matrix, its columns read off the second's addresses, with values given by `read`: looked up in the tables of a point
Entries == [i \in 1..Ops |-> <<addr[1][i], addr[Mats][i], F(read[1][i])>>]
Lookup == stage = 4 => LET t == EqTable(r) IN
            FSum([i \in 1..Ops |-> FMul(Entries[i][3], FMul(t[addr[1][i] + 1], t[addr[Mats][i] + 1]))]) = MatMle(Entries, r, r)
\* a cell of the equality table and its address, as the verifier computes them
CellAt == stage = 4 => /\ VecMle(EqTable(r), r) = EqAt(r, r)
                       /\ VecMle([c \in 1..Cells |-> F(c - 1)], r) = IdentityAt(r)
\* a point with fewer variables, padded on the left, has the same table followed by zeros
Padded == stage = 4 => LET z == EqTable(Tail(r)) IN EqTable(PadLeft(Tail(r), Len(r))) = z \o [i \in 1..Len(z) |-> F0]
\* several tables opened as one: the value of the joined table is the joined values
Joined == stage = 4 => LET k == Log2(Pow2Ceil(Mats)) ts == [j \in 1..Mats |-> Ints(addr[j])] rr == [i \in 1..Log2(Ops) |-> r[1]] IN
            \A c \in Grid(k, {0, 2}) : VecMle(Merge(ts), c \o rr) = VecMle(Merge(<<[j \in 1..Mats |-> VecMle(ts[j], rr)]>>), c)
=============================================================================
