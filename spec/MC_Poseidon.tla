---------------------------- MODULE MC_Poseidon ----------------------------
(* The permutation over a small prime, from every state, round by round: each round can be undone, so
   the permutation is one-to-one (fifth powers are, when 5 does not divide P - 1, and the matrix is
   invertible), and every square submatrix of the matrix is regular. *)
EXTENDS Poseidon, TLC
VARIABLES prev, s, r, key, m, inv   \* key: the round keys, m: the matrix, inv: its inverse
vars == <<prev, s, r, key, m, inv>>
E == 0..(P - 1)
Det2(a, b, c, d) == FSub(FMul(a, d), FMul(b, c))
Det3(M) == FSub(FAdd(FAdd(FMul(M[1][1], FMul(M[2][2], M[3][3])), FMul(M[1][2], FMul(M[2][3], M[3][1]))), FMul(M[1][3], FMul(M[2][1], M[3][2]))),
             FAdd(FAdd(FMul(M[1][3], FMul(M[2][2], M[3][1])), FMul(M[1][1], FMul(M[2][3], M[3][2]))), FMul(M[1][2], FMul(M[2][1], M[3][3]))))
Minor(M, i, j) == LET a == (i % 3) + 1 b == ((i + 1) % 3) + 1 c == (j % 3) + 1 d == ((j + 1) % 3) + 1
               IN Det2(M[a][c], M[a][d], M[b][c], M[b][d])
Inv(M, d) == [i \in 1..3 |-> [j \in 1..3 |-> FDiv(Minor(M, j, i), d)]]
Rs == FullRounds + PartialRounds
Init == key = RoundKey /\ m = Mds /\ inv = Inv(m, Det3(m)) /\ s \in [1..3 -> E] /\ prev = s /\ r = 0
Next == r < Rs /\ s' = RoundOf(key, m, s, r + 1) /\ prev' = s /\ r' = r + 1 /\ UNCHANGED <<key, m, inv>>
Spec == Init /\ [][Next]_vars
Regular(M) == /\ \A i, j \in 1..3 : M[i][j] # F0
              /\ \A i, j, k, n \in 1..3 : (i < j /\ k < n) => Det2(M[i][k], M[i][n], M[j][k], M[j][n]) # F0
Params == r = 0 => (Regular(m) /\ Det3(m) # F0 /\ (\A x, y \in E : Sbox(x) = Sbox(y) => x = y))
UnSbox(y) == CHOOSE x \in E : Sbox(x) = y
Mul3(M, t, i) == FAdd(FAdd(FMul(M[i][1], t[1]), FMul(M[i][2], t[2])), FMul(M[i][3], t[3]))
Before(t, i) == LET k == Mul3(inv, t, i) IN FSub(IF i = 1 \/ IsFull(r) THEN UnSbox(k) ELSE k, key[3 * (r - 1) + i])
OneToOne == r > 0 => \A i \in 1..3 : Before(s, i) = prev[i]
=============================================================================
