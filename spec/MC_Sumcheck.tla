---------------------------- MODULE MC_Sumcheck ----------------------------
(* The sum-check protocol as a game over a small field: the prover may send any polynomial whose values at 0
   and 1 sum to the claim, the verifier any challenge.  True claims stay true under honest messages; a
   false claim becomes true for at most `degree` of the challenges, whatever the message. *)
EXTENDS Sumcheck, TLC, FiniteSets
CONSTANTS MaxVars, Degree, Vals       \* Degree 2: products of two tables, 3: of three
VARIABLES A, B, C, claim
vars == <<A, B, C, claim>>
E == 0..(P - 1)
Ones(n) == [i \in 1..n |-> F1]
Truth(a, b, c) == Total("abc", a, b, c)
Init == \E k \in 1..MaxVars : /\ A \in [1..(2 ^ k) -> Vals] /\ B \in [1..(2 ^ k) -> Vals]
                              /\ C \in (IF Degree = 3 THEN [1..(2 ^ k) -> Vals] ELSE {Ones(2 ^ k)})
                              /\ claim \in E
\* messages: polynomials without their linear coefficient
Msgs == [1..Degree -> E]
After(m, r) == UAt(UDecompress(m, claim), r)
HonestMsg == UCompress(Lagrange([k \in 1..(Degree + 1) |-> RoundAt("abc", A, B, C, F(k - 1))]))
Next == Len(A) > 1 /\ \E r \in E, m \in {HonestMsg} :
          /\ A' = BindTop(A, r) /\ B' = BindTop(B, r) /\ C' = BindTop(C, r) /\ claim' = After(m, r)
Spec == Init /\ [][Next]_vars
\* in the honest run the claim is the truth, at every step (completeness), and the degree suffices
Complete == Len(A) > 1 /\ claim = Truth(A, B, C) =>
              \A r \in E : After(HonestMsg, r) = Truth(BindTop(A, r), BindTop(B, r), BindTop(C, r))
Sound == Len(A) > 1 /\ claim # Truth(A, B, C) =>
           LET h == [r \in E |-> Truth(BindTop(A, r), BindTop(B, r), BindTop(C, r))]
           IN \A m \in Msgs : Cardinality({r \in E : After(m, r) = h[r]}) <= Degree
\* one layer of a product tree: the value of the layer at any point is the weighted sum the layer proves
Layer == \A r \in [1..Log2(Len(A)) -> E] :
           VecMle([i \in 1..Len(A) |-> FMul(A[i], B[i])], r) = Total("abc", A, B, EqTable(r))
=============================================================================
