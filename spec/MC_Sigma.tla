------------------------------ MODULE MC_Sigma ------------------------------
(* The building blocks over a generic group: a commitment is the vector of its coefficients with respect to
   independent generators (what a prover who knows no relation among them is bound to).  The operators of
   the group are replaced by the vectors' (VAdd for GAdd and so on, by the configuration), the verifiers
   are those of Sigma.tla.

   Explored: what a state is a statement (and first message) of. *)
EXTENDS Sigma, TLC, FiniteSets
CONSTANTS D, Explored, Small              \* dimension, kinds explored, coefficients of messages
VARIABLES kind, st, msg
vars == <<kind, st, msg>>
E == 0..(P - 1)
NonZero == E \ {0}
V == [1..D -> E]
VS == [1..D -> Small]
\* blindings can be taken off both sides of every equation: nothing is lost by exploring those without
V0 == {v \in V : v[D] = 0}
VS0 == {v \in VS : v[D] = 0}
VZero == [i \in 1..D |-> 0]
Unit(k) == [i \in 1..D |-> IF i = k THEN 1 ELSE 0]
VAdd(X, Y) == [i \in 1..D |-> FAdd(X[i], Y[i])]
VNeg(X) == [i \in 1..D |-> FNeg(X[i])]
VMul(k, X) == [i \in 1..D |-> FMul(k, X[i])]
VMsm(ks, Xs) == FoldLeft(LAMBDA a, i : VAdd(a, VMul(ks[i], Xs[i])), VZero, [i \in 1..Len(ks) |-> i])
Id(x) == x
All(x) == TRUE
\* generators: h is the last unit vector
H == Unit(D)
One == [G |-> <<Unit(1)>>, h |-> H]
Two == [G |-> <<Unit(1), Unit(2)>>, h |-> H]              \* of vectors
Val == [G |-> <<Unit(D - 1)>>, h |-> H]                   \* of values, when there are vectors
Log == [G |-> [i \in 1..(D - 1) |-> Unit(i)], h |-> H]    \* D - 2 for the vector and one for the value
Opens(g, C, xs) == \E r \in E : C = Commit(g, xs, r)

Init == /\ kind \in Explored
        /\ CASE kind = "know" -> st \in [C : V]
             [] kind = "eq"   -> st \in [C1 : V, C2 : V]
             [] kind = "prod" -> st \in [X : V0, Y : V0, XY : V]
             [] kind = "dot"  -> st \in [a : [1..2 -> Small], Cx : VS0, Cy : VS0]
             [] kind = "fold" -> st \in [a : [1..2 -> Small] \ {<<0, 0>>}, x : [1..2 -> Small], y : Small, r : {1, 2}]
             [] kind = "last" -> st \in [gammah : V, ah : NonZero, rq : NonZero]
        /\ msg = <<>>
Next == /\ msg = <<>>
        /\ CASE kind = "know" -> msg' \in [alpha : V]
             [] kind = "eq"   -> msg' \in [alpha : V]
             [] kind = "prod" -> msg' \in [alpha : V0, beta : V0, delta : V]
             [] kind = "dot"  -> msg' \in [delta : VS0, beta : VS0]
             [] kind = "fold" -> msg' \in [L : VS0, R : VS0]
             [] kind = "last" -> msg' \in [delta : VS, beta : VS]
        /\ UNCHANGED <<kind, st>>
Spec == Init /\ [][Next]_vars
Sent == msg # <<>>

Run(c, z) ==
  CASE kind = "know" -> KnowRun(One, st.C, [alpha |-> msg.alpha, z1 |-> z[1], z2 |-> z[2]], <<c>>)
    [] kind = "eq"   -> EqRun(One, st.C1, st.C2, [alpha |-> msg.alpha, z |-> z[1]], <<c>>)
    [] kind = "prod" -> ProdRun(One, st.X, st.Y, st.XY, [alpha |-> msg.alpha, beta |-> msg.beta, delta |-> msg.delta, z |-> z], <<c>>)
    [] kind = "dot"  -> DotRun(Val, Two, st.a, st.Cx, st.Cy, [delta |-> msg.delta, beta |-> msg.beta, z |-> <<z[1], z[2]>>, z_delta |-> z[3], z_beta |-> z[4]], <<c>>)
Resp == CASE kind = "know" -> 2 [] kind = "eq" -> 1 [] kind = "prod" -> 5 [] kind = "dot" -> 4
Ans == CASE kind = "prod" -> {<<t[1], 0, t[2], 0, t[3]>> : t \in [1..3 -> E]}
         [] kind = "dot" -> {<<t[1], t[2], 0, 0>> : t \in [1..2 -> E]}
         [] OTHER -> [1..Resp -> E]
Answers(c) == {z \in Ans : Run(c, z).ok}
Linear == Sent /\ kind \in {"know", "eq", "prod", "dot"}
True ==
  CASE kind = "know" -> \E x \in E : Opens(One, st.C, <<x>>)
    [] kind = "eq"   -> Opens(One, GSub(st.C1, st.C2), <<0>>)
    [] kind = "prod" -> \E x, y \in E : Opens(One, st.X, <<x>>) /\ Opens(One, st.Y, <<y>>) /\ Opens(One, st.XY, <<FMul(x, y)>>)
    [] kind = "dot"  -> \E x1, x2 \in E : Opens(Two, st.Cx, <<x1, x2>>) /\ Opens(Val, st.Cy, <<FDot(<<x1, x2>>, st.a)>>)
\* a false statement is accepted for at most one challenge, whatever the first message and the answers
Sound == Linear /\ ~True => Cardinality({c \in E : Answers(c) # {}}) <= 1
\* two answers to one first message show a witness
Extract == Linear => \A c1, c2 \in E : c1 # c2 => \A z1 \in Answers(c1), z2 \in Answers(c2) :
             LET w == [i \in DOMAIN z1 |-> FDiv(FSub(z1[i], z2[i]), FSub(c1, c2))] IN
             CASE kind = "know" -> st.C = Commit(One, <<w[1]>>, w[2])
               [] kind = "eq"   -> GSub(st.C1, st.C2) = GMul(w[1], H)
               [] kind = "prod" -> st.X = Commit(One, <<w[1]>>, w[2]) /\ st.Y = Commit(One, <<w[3]>>, w[4]) /\ Opens(One, st.XY, <<FMul(w[1], w[3])>>)
               [] kind = "dot"  -> st.Cx = Commit(Two, <<w[1], w[2]>>, w[3]) /\ st.Cy = Commit(Val, <<FDot(<<w[1], w[2]>>, st.a)>>, w[4])
\* a true statement has an answer to every challenge for the honest first messages, one per blinding
Complete == Linear /\ True /\ (CASE kind = "prod" -> (\E t \in E : Opens(One, msg.alpha, <<t>>)) /\ (\E b3 \in E : Opens(One, msg.beta, <<b3>>) /\ Opens([G |-> <<st.X>>, h |-> H], msg.delta, <<b3>>))
                                 [] kind = "eq" -> Opens(One, msg.alpha, <<0>>)
                                 [] kind = "dot" -> \E d1, d2 \in E : Opens(Two, msg.delta, <<d1, d2>>) /\ Opens(Val, msg.beta, <<FDot(<<d1, d2>>, st.a)>>)
                                 [] OTHER -> \E x \in E : Opens(One, msg.alpha, <<x>>))
            => \A c \in E : Answers(c) # {}
(* Every first message is the one for some answers: nothing about the witness can be read off a proof
   whose challenge is known first (simulation). *)
Simulates == Sent /\ kind = "know" => \A c \in E, z \in [1..2 -> E] :
               LET al == GSub(Commit(One, <<z[1]>>, z[2]), GMul(c, st.C)) IN KnowRun(One, st.C, [alpha |-> al, z1 |-> z[1], z2 |-> z[2]], <<c>>).ok
(* Logarithmic form, two entries: a false statement stays false for all but six of the folding challenges
   (four roots of the folded relation and two of the folded public vector), and a true one with
   the honest messages stays true for all of them. *)
Gamma == VAdd(Commit([G |-> <<Unit(1), Unit(2)>>, h |-> H], st.x, 0), VMul(FMul(st.r, st.y), Unit(D - 1)))
FoldFor(L, R, u) == LogFold(<<Unit(1), Unit(2)>>, st.a, Gamma, <<L>>, <<R>>, <<u>>)
Holds(f, rq) == \E x, r \in E : f.gammah = VMsm(<<x, FMul(f.ah, x), r>>, <<f.gh, rq, H>>)
RQ == VMul(st.r, Unit(D - 1))
FoldSound == Sent /\ kind = "fold" /\ st.y # FDot(st.x, st.a) =>
               Cardinality({u \in NonZero : LET f == FoldFor(msg.L, msg.R, u) IN f.ah = 0 \/ Holds(f, RQ)}) <= 6
FoldComplete == Sent /\ kind = "fold" /\ st.y = FDot(st.x, st.a) =>
  LET L == VAdd(VMul(st.x[1], Unit(2)), VMul(FMul(st.x[1], st.a[2]), RQ))
      R == VAdd(VMul(st.x[2], Unit(1)), VMul(FMul(st.x[2], st.a[1]), RQ))
  IN \A u \in NonZero : Holds(FoldFor(L, R, u), RQ)
LastFold == [gh |-> Unit(1), ah |-> st.ah, gammah |-> st.gammah]
LastSound == Sent /\ kind = "last" /\ ~Holds(LastFold, VMul(st.rq, Unit(D - 1))) =>
  Cardinality({c \in E : \E z1, z2 \in E : LogFinal(LastFold, VMul(st.rq, Unit(D - 1)), H, msg.delta, msg.beta, c, z1, z2)}) <= 1
\* the public vector zero is not covered: everything is accepted for it
Degenerate == Sent /\ kind = "last" => \A c \in E : LogFinal([LastFold EXCEPT !.ah = 0], VMul(st.rq, Unit(D - 1)), H, VZero, msg.beta, c, 0, 0)
=============================================================================
