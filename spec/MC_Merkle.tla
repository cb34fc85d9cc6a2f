----------------------------- MODULE MC_Merkle -----------------------------
(* The tree the library keeps - all nodes, updated along one path per change - against the padded tree of
   its leaves, over every history of insertions and deletions, with a hash that never collides.  Paths
   lead to the root for exactly the leaf at their position. *)
EXTENDS Merkle, TLC, FiniteSets
CONSTANTS Depth, Leaves, MaxOps
VARIABLES leaves, nodes, n
vars == <<leaves, nodes, n>>
Free(x, y) == <<x, y>>
Leaf(k) == <<k>>
Nil == Leaf(0)

Z == ZeroLevels(Depth)
Init == leaves = <<>> /\ nodes = [l \in 0..Depth |-> IF l = Depth THEN <<ZeroAt(Z, Depth)>> ELSE <<>>] /\ n = 0
Get(nd, l, i) == IF i + 1 <= Len(nd[l]) THEN nd[l][i + 1] ELSE ZeroAt(Z, l)
Put(s, i, x) == IF i + 1 <= Len(s) THEN [s EXCEPT ![i + 1] = x] ELSE Append(s, x)
RECURSIVE Rise(_, _, _, _)
Rise(nd, l, i, x) ==
  LET d == [nd EXCEPT ![l] = Put(nd[l], i, x)]
  IN IF l = Depth THEN d
     ELSE LET first == i - (i % 2) IN Rise(d, l + 1, i \div 2, MH(Get(d, l, first), Get(d, l, first + 1)))
Insert(k) == /\ HasRoom(leaves, Depth) /\ leaves' = Inserted(leaves, Leaf(k))
             /\ nodes' = Rise(nodes, 0, Len(leaves), Leaf(k))
Delete(i) == IsPos(leaves, i) /\ leaves' = Deleted(leaves, i) /\ nodes' = Rise(nodes, 0, i, MZero)
Next == \/ n < MaxOps /\ n' = n + 1 /\ ((\E k \in 0..Leaves : Insert(k)) \/ \E i \in 0..(TwoTo(Depth) - 1) : Delete(i))
        \/ n = MaxOps /\ UNCHANGED vars
Spec == Init /\ [][Next]_vars

RootRight == nodes[Depth][1] = RootOf(Z, leaves, Depth)
NodesRight == \A l \in 0..Depth : \A i \in 0..(TwoTo(Depth - l) - 1) : Get(nodes, l, i) = NodeAt(Z, leaves, l, i)
OwnProofs == \A i \in 0..(Len(leaves) - 1) : Leads(leaves[i + 1], PathFrom(i, Depth), Siblings(Z, leaves, i, Depth), RootOf(Z, leaves, Depth))
Paths == [1..Depth -> {0, 1}]
Pos(path) == LET RECURSIVE at(_) at(k) == IF k > Depth THEN 0 ELSE path[k] + 2 * at(k + 1) IN at(1)
Pool(l) == {NodeAt(Z, leaves, l, i) : i \in 0..(TwoTo(Depth - l) - 1)} \cup {ZeroAt(Z, l)}
\* leaves, siblings and paths from all over the tree: only those of one position lead to the root
OnlyMembers ==
  \A x \in {Leaf(k) : k \in 0..Leaves} : \A path \in Paths :
    \A sib \in {f \in [1..Depth -> UNION {Pool(l) : l \in 0..(Depth - 1)}] : \A k \in 1..Depth : f[k] \in Pool(k - 1)} :
      Leads(x, path, sib, RootOf(Z, leaves, Depth)) =>
        x = NodeAt(Z, leaves, 0, Pos(path)) /\ \A k \in 1..Depth : sib[k] = SiblingAt(Z, leaves, Pos(path), k - 1)
=============================================================================
