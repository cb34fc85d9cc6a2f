----------------------------- MODULE TracePoly -----------------------------
(* Recorded operations on the proof system's polynomials.  Registers hold tables; a register that has had
   variables fixed may be read, fixed further and cloned (the code documents no more for it). *)
EXTENDS Poly, TLC, Json, IOUtils
CONSTANT Regs
Progs == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES prog, l, tab
tvars == <<prog, l, tab>>
Ev == Progs[prog].ev
e == Ev[l]
Has(k) == k \in DOMAIN e
TInit == l = 1 /\ prog \in 1..Len(Progs) /\ tab = [r \in 1..Regs |-> <<F0>>]
\* after every operation on registers the driver reads the ones it wrote back, entry by entry
Seen(r, t) == e.seen[ToString(r)] = [vars |-> Log2(Len(t)), len |-> Len(t), z |-> t]
Put(r, t) == Seen(r, t) /\ tab' = [tab EXCEPT ![r] = t]
Keep == UNCHANGED tab
T(r) == tab[r]
NumMat(M) == M
Op ==
  CASE e.op = "new" -> Put(e.d, e.z)
    [] e.op = "ints" -> Put(e.d, [i \in 1..Len(e.z) |-> F(e.z[i])])
    [] e.op = "clone" -> Put(e.d, T(e.a))
    [] e.op = "top" -> Put(e.d, BindTop(T(e.d), e.r))
    [] e.op = "bot" -> Put(e.d, BindBot(T(e.d), e.r))
    [] e.op = "split" -> LET h == Halves(T(e.a), e.k) IN Seen(e.d, h[1]) /\ Seen(e.d2, h[2]) /\ tab' = [tab EXCEPT ![e.d] = h[1], ![e.d2] = h[2]]
    [] e.op = "extend" -> Put(e.d, Extend(T(e.d), T(e.a)))
    [] e.op = "merge" -> Put(e.d, Merge([i \in 1..Len(e.as) |-> T(e.as[i])]))
    [] e.op = "eval" -> e.out = VecMle(T(e.a), e.r) /\ Keep
    [] e.op = "bound" -> e.out = LeftMul(T(e.a), e.L) /\ Keep
    [] e.op = "eqtable" -> e.out = EqTable(e.r) /\ Keep
    [] e.op = "eqat" -> e.out = EqAt(e.r, e.x) /\ Keep
    [] e.op = "factored" -> <<e.left, e.right>> = Factored(e.r) /\ e.lens = <<LeftVars(Len(e.r)), Len(e.r) - LeftVars(Len(e.r))>> /\ Keep
    [] e.op = "identity" -> e.out = IdentityAt(e.r) /\ Keep
    [] e.op = "sparse" -> e.out = SparseAt(e.s, e.r) /\ Keep
    [] e.op = "mats" -> /\ e.evals = [i \in 1..Len(e.M) |-> MatMle(e.M[i], e.rx, e.ry)]
                        /\ e.mul = [i \in 1..Len(e.M) |-> MulVec(e.M[i], e.z, 2 ^ Len(e.rx))]
                        /\ e.rows = [i \in 1..Len(e.M) |-> RowMul(e.M[i], e.x, 2 ^ Len(e.ry))]
                        /\ e.nnz = [i \in 1..Len(e.M) |-> Pow2Ceil(Len(e.M[i]))]
                        /\ Keep
    [] e.op = "uni" -> /\ Through(e.coeffs, e.evals) /\ e.degree = Len(e.evals) - 1
                       /\ e.zero = e.evals[1] /\ e.one = e.evals[2]
                       /\ e.at = [i \in 1..Len(e.xs) |-> UAt(e.coeffs, e.xs[i])]
                       /\ e.short = UCompress(e.coeffs)
                       /\ e.back = UDecompress(e.short, e.hint)
                       /\ Keep
    [] e.op = "dot" -> (IF Len(e.a) = Len(e.b) THEN e.out = FDot(e.a, e.b) ELSE Has("panic")) /\ Keep
    [] e.op = "prodcircuit" -> e.out = FProd(e.z) /\ Keep
    [] e.op = "dotcircuit" -> /\ e.out = FSum([i \in 1..Len(e.a) |-> FMul(e.a[i], FMul(e.b[i], e.w[i]))])
                              /\ LET n == Len(e.a) \div 2 S(lo, hi) == FSum([i \in 1..n |-> FMul(e.a[lo + i], FMul(e.b[lo + i], e.w[lo + i]))])
                                 IN e.parts = <<S(0, n), S(n, 2 * n)>>
                              /\ Keep
    [] OTHER -> FALSE
Step == IF Has("panic") THEN e.op = "dot" /\ Op ELSE Op
TNext == \/ /\ l <= Len(Ev) /\ Step /\ l' = l + 1 /\ UNCHANGED prog
         \/ l = Len(Ev) + 1 /\ UNCHANGED tvars
TSpec == TInit /\ [][TNext]_tvars
TypeOK == l \in 1..(Len(Ev) + 1)
=============================================================================
