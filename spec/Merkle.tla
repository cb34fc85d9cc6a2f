------------------------------- MODULE Merkle -------------------------------
(* A binary tree of fixed depth over a list of leaves, padded with zeros; and paths from a leaf to the root. *)
EXTENDS Big, SequencesExt
CONSTANTS MH(_, _), MZero

\* ---- the value of a subtree without leaves, by level
ZeroLevels(depth) == Now(FoldLeft(LAMBDA acc, k : Now(Append(acc, Now(MH(acc[Len(acc)], acc[Len(acc)])))), <<MZero>>, [k \in 1..depth |-> k]))
\* below, z are the zero levels up to the depth of the tree
ZeroAt(z, l) == z[l + 1]
RECURSIVE TwoTo(_)
TwoTo(k) == IF k = 0 THEN 1 ELSE 2 * TwoTo(k - 1)
RECURSIVE NodeAt(_, _, _, _)
NodeAt(z, lv, l, i) ==
  IF l > 30 THEN (IF i = 0 /\ lv # <<>> THEN MH(NodeAt(z, lv, l - 1, 0), ZeroAt(z, l - 1)) ELSE ZeroAt(z, l))
  ELSE IF i * TwoTo(l) >= Len(lv) THEN ZeroAt(z, l)
  ELSE IF l = 0 THEN lv[i + 1]
  ELSE MH(NodeAt(z, lv, l - 1, 2 * i), NodeAt(z, lv, l - 1, 2 * i + 1))
RootOf(z, lv, depth) == NodeAt(z, lv, depth, 0)

\* ---- the path of position i, from the leaf upwards: 0 when the node is the left one
RECURSIVE PathFrom(_, _)
PathFrom(i, depth) == IF depth = 0 THEN <<>> ELSE <<i % 2>> \o PathFrom(i \div 2, depth - 1)
RECURSIVE AtLevel(_, _)
AtLevel(i, l) == IF l = 0 THEN i ELSE AtLevel(i \div 2, l - 1)
SiblingAt(z, lv, i, l) == LET j == AtLevel(i, l) IN NodeAt(z, lv, l, IF j % 2 = 0 THEN j + 1 ELSE j - 1)
Siblings(z, lv, i, depth) == [k \in 1..depth |-> SiblingAt(z, lv, i, k - 1)]
Climb(leaf, path, sib) ==
  FoldLeft(LAMBDA acc, k : Now(IF path[k] = 0 THEN MH(acc, sib[k]) ELSE MH(sib[k], acc)), leaf, [k \in 1..Len(path) |-> k])
Leads(leaf, path, sib, root) == Climb(leaf, path, sib) = root

\* ---- histories
HasRoom(lv, depth) == depth > 30 \/ Len(lv) < TwoTo(depth)
Inserted(lv, x) == Append(lv, x)
Deleted(lv, i) == [lv EXCEPT ![i + 1] = MZero]
IsPos(lv, i) == i >= 0 /\ i < Len(lv)
FirstAt(lv, x) == IF \E i \in 1..Len(lv) : lv[i] = x THEN (CHOOSE i \in 1..Len(lv) : lv[i] = x /\ \A j \in 1..(i - 1) : lv[j] # x) - 1 ELSE -1
=============================================================================
