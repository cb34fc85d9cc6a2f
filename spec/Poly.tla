-------------------------------- MODULE Poly --------------------------------
(* Multilinear polynomials as tables of their values on the cube, univariate polynomials as coefficient
   sequences (lowest first), and the operations the proof system has on them.  The meaning of a table z
   at a point r is VecMle(z, r) of R1CS.tla; MC_Poly states what each operation does to that meaning. *)
EXTENDS R1CS

EqTable(r) == Now([i \in 1..(2 ^ Len(r)) |-> Chi(r, i - 1)])
EqAt(r, x) == FProd([i \in 1..Len(r) |-> FAdd(FMul(r[i], x[i]), FMul(FSub(F1, r[i]), FSub(F1, x[i])))])
\* the number whose bits, the top one first, are r
IdentityAt(r) == FoldLeft(LAMBDA a, x : FAdd(FDbl(a), x), F0, r)
BindTop(z, r) == LET n == Len(z) \div 2 IN Now([i \in 1..n |-> FAdd(z[i], FMul(r, FSub(z[i + n], z[i])))])
BindBot(z, r) == Now([i \in 1..(Len(z) \div 2) |-> FAdd(z[2 * i - 1], FMul(r, FSub(z[2 * i], z[2 * i - 1])))])
Halves(z, k) == <<SubSeq(z, 1, k), SubSeq(z, k + 1, 2 * k)>>
Extend(z, y) == z \o y
RECURSIVE CatAll(_)
CatAll(s) == IF s = <<>> THEN <<>> ELSE Head(s) \o CatAll(Tail(s))
Merge(s) == LET v == CatAll(s) IN v \o [i \in 1..(Pow2Ceil(Len(v)) - Len(v)) |-> F0]
LeftVars(k) == k \div 2
\* the table as a matrix, times a row vector
LeftMul(z, L) == LET R == Len(z) \div Len(L) IN [i \in 1..R |-> FSum([j \in 1..Len(L) |-> FMul(L[j], z[(j - 1) * R + i])])]
Factored(r) == LET k == LeftVars(Len(r)) IN <<EqTable(SubSeq(r, 1, k)), EqTable(SubSeq(r, k + 1, Len(r)))>>
\* a sparse vector, entries <<index, value>>
SparseAt(s, r) == FoldLeft(LAMBDA a, t : FAdd(a, FMul(t[2], Chi(r, t[1]))), F0, s)
\* row vector times a sparse matrix with n columns
RowMul(M, x, n) == Now(FoldLeft(LAMBDA acc, t : [acc EXCEPT ![t[2] + 1] = FAdd(@, FMul(t[3], x[t[1] + 1]))], [i \in 1..n |-> F0], M))

RECURSIVE UAt(_, _)
UAt(c, x) == IF c = <<>> THEN F0 ELSE FAdd(Head(c), FMul(x, UAt(Tail(c), x)))
\* the polynomial of degree < Len(v) with the values v at 0, 1, 2, ...
Through(c, v) == Len(c) = Len(v) /\ \A k \in 1..Len(v) : UAt(c, F(k - 1)) = v[k]
UCompress(c) == <<c[1]>> \o SubSeq(c, 3, Len(c))
UDecompress(s, hint) == LET rest == FSum(Tail(s)) IN <<s[1], FSub(FSub(hint, FDbl(s[1])), rest)>> \o Tail(s)
\* by Newton's divided differences (only used where a polynomial has to be computed)
Lagrange(v) == LET n == Len(v)
  Basis(k) == LET terms == SelectSeq([j \in 1..n |-> j], LAMBDA j : j # k)
                  num == FoldLeft(LAMBDA p, j : [i \in 1..(Len(p) + 1) |-> FSub(IF i = 1 THEN F0 ELSE p[i - 1], IF i > Len(p) THEN F0 ELSE FMul(F(j - 1), p[i]))], <<F1>>, terms)
                  den == FProd([t \in 1..Len(terms) |-> FSub(F(k - 1), F(terms[t] - 1))])
              IN [i \in 1..n |-> FDiv(num[i], den)]
  IN Now(FoldLeft(LAMBDA a, k : LET b == Basis(k) IN [i \in 1..n |-> FAdd(a[i], FMul(v[k], b[i]))], [i \in 1..n |-> F0], [k \in 1..n |-> k]))
=============================================================================
