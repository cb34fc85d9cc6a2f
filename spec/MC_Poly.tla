------------------------------ MODULE MC_Poly ------------------------------
(* Every table over a small field: what each operation does to the value at every point. *)
EXTENDS Poly, TLC
CONSTANTS MaxVars
VARIABLES z, u            \* a table; the coefficients of a univariate polynomial
E == 0..(P - 1)
Pts(k) == [1..k -> E]
Init == \/ \E k \in 0..MaxVars : z \in [1..(2 ^ k) -> E] /\ u = <<>>
        \/ \E d \in 3..4 : u \in [1..d -> E] /\ z = <<F0>>
Bind1(r) == z' = BindTop(z, r)
Bind2(r) == z' = BindBot(z, r)
Next == \E r \in E : Len(z) > 1 /\ (Bind1(r) \/ Bind2(r)) /\ UNCHANGED u
Spec == Init /\ [][Next]_<<z, u>>
K == Log2(Len(z))
Cube(k, i) == [j \in 1..k |-> IF BitsOf(i, k)[j] = 1 THEN F1 ELSE F0]
\* the extension agrees with the table on the cube and is linear in each variable
Extends == \A i \in 0..(Len(z) - 1) : VecMle(z, Cube(K, i)) = z[i + 1]
Linear == \A r \in Pts(K), k \in 1..K, t \in E :
            VecMle(z, [r EXCEPT ![k] = t]) = FAdd(FMul(FSub(F1, t), VecMle(z, [r EXCEPT ![k] = F0])), FMul(t, VecMle(z, [r EXCEPT ![k] = F1])))
Binds == K > 0 => \A r \in Pts(K) : /\ VecMle(BindTop(z, r[1]), Tail(r)) = VecMle(z, r)
                                    /\ VecMle(BindBot(z, r[K]), SubSeq(r, 1, K - 1)) = VecMle(z, r)
Splits == K > 0 => LET h == Halves(z, Len(z) \div 2) IN
             /\ Extend(h[1], h[2]) = z
             /\ \A r \in Pts(K) : VecMle(z, r) = FAdd(FMul(FSub(F1, r[1]), VecMle(h[1], Tail(r))), FMul(r[1], VecMle(h[2], Tail(r))))
Merges == K <= 1 => \A a \in E : LET m == Merge(<<z, <<a>>, z>>) IN
             /\ Len(m) = Pow2Ceil(2 * Len(z) + 1) /\ SubSeq(m, 1, Len(z)) = z /\ m[Len(z) + 1] = a
             /\ SubSeq(m, Len(z) + 2, 2 * Len(z) + 1) = z
Factors == \A r \in Pts(K) : LET f == Factored(r) b == LeftMul(z, f[1]) IN
             /\ FDot(b, f[2]) = VecMle(z, r)
             /\ \A i \in 1..Len(f[1]), j \in 1..Len(f[2]) : FMul(f[1][i], f[2][j]) = EqTable(r)[(i - 1) * Len(f[2]) + j]
Eqs == \A r \in Pts(K) : /\ FDot(z, EqTable(r)) = VecMle(z, r)
                         /\ \A x \in Pts(K) : EqAt(r, x) = VecMle(EqTable(r), x)
Identity == \A i \in 0..(Len(z) - 1) : IdentityAt(Cube(K, i)) = F(i)
Uni == u # <<>> => /\ \A hint \in E : LET d == UDecompress(UCompress(u), hint) IN
                          /\ FAdd(UAt(d, F0), UAt(d, F1)) = hint
                          /\ hint = FAdd(UAt(u, F0), UAt(u, F1)) => d = u
                   /\ LET v == [k \in 1..Len(u) |-> UAt(u, F(k - 1))] IN Lagrange(v) = u /\ Through(u, v)
=============================================================================
