-------------------------------- MODULE Hide --------------------------------
(* What hides the witness in a proof of satisfaction: the blindings of its commitments and the nonces of
   its answers.  Given the witness they can all be solved for: a commitment less the part that is known is
   a multiple of h, an answer less challenge times secret is the nonce.  HBlinds lists them, for the honest
   values of everything the proof commits to; D are the numbers the prover drew. *)
EXTENDS R1csProof
None == "none"
HTab(h, D) == [d \in D |-> GMul(d, h)]
\* the number whose multiple of h the point is, among the drawn ones
HLog(tab, X) == LET c == {d \in DOMAIN tab : tab[d] = X} IN IF c = {} THEN None ELSE CHOOSE d \in c : TRUE
HRest(gn, pt, xs) == GSub(Pt(pt), GMsm(xs, SubSeq(Pts(gn.G), 1, Len(xs))))
Sub2(x, c, y) == IF y = None THEN None ELSE FSub(x, FMul(c, y))       \* x - c y
Lin(ks, ys) == IF \E i \in 1..Len(ys) : ys[i] = None THEN None ELSE FDot(ks, ys)

\* the rounds of a committed sum-check: [bl: blindings and nonces, last: blinding of the final claim]
HRounds(g1, gn, tab1, tabn, hon, pf, ch, blind0) ==
  LET n == Len(gn.G)
      Step(a, i) ==
        LET c == SubSeq(ch, 4 * i - 3, 4 * i)
            av == Now([k \in 1..n |-> FAdd(FMul(c[2], IF k = 1 THEN F(2) ELSE F1), FMul(c[3], FPow(c[1], N(k - 1))))])
            bp == HLog(tabn, HRest(gn, pf.polys[i], hon.polys[i]))
            be == HLog(tab1, HRest(g1, pf.evals[i], <<hon.evals[i]>>))
            q == pf.proofs[i]
            ds == [k \in 1..n |-> FSub(q.z[k], FMul(c[4], hon.polys[i][k]))]
            rd == Sub2(q.z_delta, c[4], bp)
            rb == Sub2(q.z_beta, c[4], Lin(<<c[2], c[3]>>, <<a.last, be>>))
        IN Now([bl |-> a.bl \o <<bp, be>> \o ds \o <<rd, rb>>, last |-> be])
  IN FoldLeft(Step, [bl |-> <<>>, last |-> blind0], [i \in 1..Len(pf.polys) |-> i])

\* the logarithmic inner product of x (under blinding bx) and a, the value under blinding by
HFold(g, tab, x, a, pf, ch) ==
  LET n == Len(a)
      rq == GMul(ch[1], Pt(g.G[n + 1]))
      Step(s, j) ==
        LET m == Len(s.x) \div 2
            xl == SubSeq(s.x, 1, m)  xr == SubSeq(s.x, m + 1, 2 * m)
            al == SubSeq(s.a, 1, m)  ar == SubSeq(s.a, m + 1, 2 * m)
            gl == SubSeq(s.G, 1, m)  gr == SubSeq(s.G, m + 1, 2 * m)
            u == ch[j + 1]
            v == FInv(u)
            bL == HLog(tab, GSub(Pt(pf.L[j]), GMsm(xl \o <<FDot(xl, ar)>>, gr \o <<rq>>)))
            bR == HLog(tab, GSub(Pt(pf.R[j]), GMsm(xr \o <<FDot(xr, al)>>, gl \o <<rq>>)))
        IN Now([bl |-> s.bl \o <<bL, bR>>,
                x |-> [i \in 1..m |-> FAdd(FMul(xl[i], u), FMul(v, xr[i]))],
                a |-> [i \in 1..m |-> FAdd(FMul(al[i], v), FMul(u, ar[i]))],
                G |-> [i \in 1..m |-> GMsm(<<v, u>>, <<gl[i], gr[i]>>)]])
      e == FoldLeft(Step, [bl |-> <<>>, x |-> x, a |-> a, G |-> Pts(SubSeq(g.G, 1, n))], [j \in 1..Len(pf.L) |-> j])
      c == ch[Len(pf.L) + 2]
      d == FSub(pf.z1, FMul(c, FMul(e.x[1], e.a[1])))
  IN e.bl \o <<d, HLog(tab, GSub(Pt(pf.delta), GMul(d, e.G[1]))), HLog(tab, GSub(Pt(pf.beta), GMul(d, rq)))>>

HBlinds(sys, vars, inputs, gs, pf, ch, D) ==
  LET p == Pad(sys)
      nx == Log2(p.nc)
      ny == Log2(2 * p.nv)
      w == PadVars(vars, p.nv)
      zz == PadVars(w \o <<F1>> \o inputs, 2 * p.nv)
      g1 == ValueGens(gs.log)
      tab1 == HTab(Pt(gs.log.h), D)
      tab3 == HTab(Pt(gs.three.h), D)
      tab4 == HTab(Pt(gs.four.h), D)
      az == MulVec(p.A, zz, p.nc)  bz == MulVec(p.B, zz, p.nc)  cz == MulVec(p.C, zz, p.nc)
      tau == SubSeq(ch, 1, nx)
      rx == [i \in 1..nx |-> ch[nx + 4 * i - 3]]
      o1 == 5 * nx
      o2 == o1 + 6
      ry == [i \in 1..ny |-> ch[o2 + 4 * i - 3]]
      o3 == o2 + 4 * ny
      h1 == ZkHonest("a(bc-d)", <<EqTable(tau), az, bz, cz>>, 3, rx)
      k1 == HRounds(g1, gs.four, tab1, tab4, h1, pf.sc1, Drop(ch, nx), F0)
      va == VecMle(az, rx)  vb == VecMle(bz, rx)  vc == VecMle(cz, rx)
      B1(pt, x) == HLog(tab1, HRest(g1, pt, <<x>>))
      bA == B1(pf.claims2[1], va)  bB == B1(pf.claims2[2], vb)  bC == B1(pf.claims2[3], vc)  bAB == B1(pf.claims2[4], FMul(va, vb))
      c1 == ch[o1 + 1]  c2 == ch[o1 + 2]  c3 == ch[o1 + 3]
      pok == pf.pok[1]
      pr == pf.pok[2]
      et == EqAt(tau, rx)
      rABC == SubSeq(ch, o1 + 4, o1 + 6)
      ex == EqTable(rx)
      row == LET a == RowMul(p.A, ex, 2 * p.nv) b == RowMul(p.B, ex, 2 * p.nv) c == RowMul(p.C, ex, 2 * p.nv)
             IN Now([i \in 1..(2 * p.nv) |-> FDot(rABC, <<a[i], b[i], c[i]>>)])
      h2 == ZkHonest("ab", <<zz, row>>, 2, ry)
      k2 == HRounds(g1, gs.three, tab1, tab3, h2, pf.sc2, Drop(ch, o2), Lin(rABC, <<bA, bB, bC>>))
      bw == B1(pf.comm_vars_at_ry, VecMle(w, Tail(ry)))
      f == Factored(Tail(ry))
      R == Len(f[2])
      rows == [i \in 1..Len(f[1]) |-> HLog(tab1, HRest(gs.log, pf.comm_vars[i], SubSeq(w, (i - 1) * R + 1, i * R)))]
      op == HFold(gs.log, tab1, LeftMul(w, f[1]), f[2], pf.open, Drop(ch, o3))
      ce == ch[o3 + LogChs(R) + 1]
  IN Now(rows \o k1.bl \o <<bA, bB, bC, bAB>>
     \o <<FSub(pok.z1, FMul(c1, vc)), Sub2(pok.z2, c1, bC)>>
     \o <<FSub(pr.z[1], FMul(c2, va)), Sub2(pr.z[2], c2, bA), FSub(pr.z[3], FMul(c2, vb)), Sub2(pr.z[4], c2, bB),
          Sub2(pr.z[5], c2, Lin(<<F1, FNeg(vb)>>, <<bAB, bA>>))>>
     \o <<Sub2(pf.eq1.z, c3, Lin(<<et, FNeg(et), FNeg(F1)>>, <<bAB, bC, k1.last>>))>>
     \o k2.bl \o <<bw>> \o op
     \o <<Sub2(pf.eq2.z, ce, Lin(<<FMul(VecMle(row, ry), FSub(F1, ry[1])), FNeg(F1)>>, <<bw, k2.last>>))>>)

\* fresh numbers, each used once
Fresh(bl, D) == \A i \in 1..Len(bl) : bl[i] \in D /\ bl[i] # F0 /\ \A j \in 1..(i - 1) : bl[j] # bl[i]
=============================================================================
