----------------------------- MODULE MC_Circuit -----------------------------
(* All assignments that satisfy a circuit, for every input of its domain: none has an output other than
   the function the circuit stands for, and the circuit's own hints give one that satisfies it.

   The curve is y^2 = x^3 + b over F_P, of prime order Q below P; (0, 0) stands for infinity. *)
EXTENDS Circuit
VARIABLES i, w, mode
vars == <<i, w, mode>>
Q == C.q
Kind == C.kind

\* ---- the group
O == <<0, 0>>
OnCurve(x, y) == (y * y) % P = (((x * x) % P) * x + C.b) % P
Finite == TLCEval({pt \in E \X E : pt # O /\ OnCurve(pt[1], pt[2])})
Neg(X) == IF X = O THEN O ELSE <<X[1], (P - X[2]) % P>>
Plus(X, Y) ==
  IF X = O THEN Y ELSE IF Y = O THEN X
  ELSE IF X[1] = Y[1] /\ (X[2] + Y[2]) % P = 0 THEN O
  ELSE LET l == IF X[1] = Y[1] THEN (3 * ((X[1] * X[1]) % P) * Inv(2 * X[2])) % P
                ELSE (((Y[2] - X[2]) % P) * Inv(Y[1] - X[1])) % P
           x3 == (l * l - X[1] - Y[1]) % P
       IN <<x3, (l * (X[1] - x3) - X[2]) % P>>
RECURSIVE Times(_, _)
Times(k, X) == IF k = 0 THEN O ELSE LET h == Times(k \div 2, X) d == Plus(h, h) IN IF k % 2 = 1 THEN Plus(d, X) ELSE d
Order == Cardinality(Finite) + 1 = Q /\ \A k \in 1..(Q - 1) : Times(k, C.gen) # O
ASSUME C.b = 0 \/ Order
Some(S) == IF "points" \in DOMAIN C THEN {C.points[k] : k \in 1..Len(C.points)} \cap S ELSE S

\* ---- stand-ins for the hash and the address in the small circuits
H(a, b) == (3 * a + 5 * b + a * b + 1) % P
Root(leaf, path, sib) ==
  LET f[k \in 0..Len(path)] == IF k = 0 THEN leaf
                               ELSE IF path[k] = 0 THEN H(f[k - 1], sib[k]) ELSE H(sib[k], f[k - 1])
  IN f[Len(path)]
\* address of the key whose bits, least significant first, are Y's then X's
RECURSIVE Digits(_, _)
Digits(v, n) == IF n = 0 THEN <<>> ELSE <<v % 2>> \o Digits(v \div 2, n - 1)
Addr(X) == LET ds == Digits(X[2], C.n) \o Digits(X[1], C.n)
           IN FoldLeft(LAMBDA acc, k : (acc + ds[k] * (k * k + 3)) % P, 0, [k \in 1..Len(ds) |-> k])

\* ---- inputs by name: wires, or sequences of wires
Ins == C.ins
Val(n) == w[Ins[n]]
Vals(n) == [k \in 1..Len(Ins[n]) |-> w[Ins[n][k]]]
Pt(x, y) == <<Val(x), Val(y)>>
PQ == {"xP", "yP", "xQ", "yQ"}
Give(f) == \* f: name -> value or sequence of values; the assignment of the input wires
  LET flat == {n \in DOMAIN f : n \notin {"pathIndices", "siblings", "in", "inputs"}}
      one == [k \in {Ins[n] : n \in flat} |-> f[CHOOSE n \in flat : Ins[n] = k]]
      seqs == (DOMAIN f) \ flat
      many == [k \in UNION {{Ins[n][x] : x \in 1..Len(Ins[n])} : n \in seqs} |->
                 LET n == CHOOSE m \in seqs : \E x \in 1..Len(Ins[m]) : Ins[m][x] = k
                 IN f[n][CHOOSE x \in 1..Len(Ins[n]) : Ins[n][x] = k]]
  IN one @@ many
Adds(S) == {[xP |-> z[1][1], yP |-> z[1][2], xQ |-> z[2][1], yQ |-> z[2][2]] : z \in S}
Paths(n) == [1..n -> {C.paths[k] : k \in 1..Len(C.paths)}]
Sibs(n) == [1..n -> {C.sibs[k] : k \in 1..Len(C.sibs)}]
Scalars == IF "scalars" \in DOMAIN C THEN {C.scalars[k] : k \in 1..Len(C.scalars)} ELSE 0..(Q - 1)
Ts == Some(Finite)
Us == IF "us" \in DOMAIN C THEN {C.us[k] : k \in 1..Len(C.us)} ELSE Finite
Eff(s, T, U) == [s |-> s, Tx |-> T[1], Ty |-> T[2], Ux |-> U[1], Uy |-> U[2]]
Key(s, T, U) == Plus(Times(s, T), U)
LeafOf(X) == IF Kind = "addrmem" THEN Addr(X) ELSE H(X[1], X[2])
Members == {[root |-> r, pathIndices |-> pa, siblings |-> si] @@ Eff(s, T, U) :
              s \in Scalars, T \in Ts, U \in Us, pa \in Paths(C.depth), si \in Sibs(C.depth), r \in {C.roots[k] : k \in 1..Len(C.roots)}}
\* with -1 for a root: the right one
Domain ==
  CASE Kind = "add" -> Adds((Some(Finite) \cup {O}) \X (Finite \cup {O}))
    [] Kind = "inc" -> Adds({z \in Some(Finite) \X Finite : z[1][1] # z[2][1]})
    [] Kind = "dbl" -> {[xP |-> z[1], yP |-> z[2]] : z \in Finite}
    [] Kind = "k" -> {[s |-> v] : v \in E}
    [] Kind = "mul" -> {[scalar |-> v, xP |-> X[1], yP |-> X[2]] : v \in Scalars, X \in Ts}
    [] Kind \in {"eff", "toaddr"} -> {Eff(s, T, U) : s \in Scalars, T \in Ts, U \in Us}
    [] Kind = "tree" -> {[leaf |-> v, pathIndices |-> pa, siblings |-> si] : v \in {C.leaves[k] : k \in 1..Len(C.leaves)}, pa \in Paths(C.depth), si \in Sibs(C.depth)}
    [] Kind \in {"pkmem", "addrmem"} ->
         {IF m.root = -1 THEN [m EXCEPT !.root = Root(LeafOf(Key(m.s, <<m.Tx, m.Ty>>, <<m.Ux, m.Uy>>)), m.pathIndices, m.siblings)] ELSE m : m \in Members}

\* ---- what a satisfying assignment may look like
RECURSIVE Num(_, _)
Num(o, n) == IF n = 0 THEN 0 ELSE Num(o, n - 1) + o[n] * 2 ^ (n - 1)
IsBit(v) == v \in {0, 1}
KOf(s) == (s + 2 * Q - 2 ^ C.n) % Q
Right ==
  CASE Kind = "add" -> <<OutOf("outX", w)[1], OutOf("outY", w)[1]>> = Plus(Pt("xP", "yP"), Pt("xQ", "yQ"))
    [] Kind = "inc" -> <<OutOf("outX", w)[1], OutOf("outY", w)[1]>> = Plus(Pt("xP", "yP"), Pt("xQ", "yQ"))
    [] Kind = "dbl" -> <<OutOf("outX", w)[1], OutOf("outY", w)[1]>> = Plus(Pt("xP", "yP"), Pt("xP", "yP"))
    [] Kind = "k" -> LET o == OutOf("out", w) IN
                     /\ Len(o) = C.n /\ \A k \in 1..C.n : IsBit(o[k])
                     /\ IF Val("s") < Q THEN Num(o, C.n) = KOf(Val("s")) ELSE Num(o, C.n) % Q = KOf(Val("s"))
    [] Kind = "mul" -> <<OutOf("outX", w)[1], OutOf("outY", w)[1]>> = Times(Val("scalar"), Pt("xP", "yP"))
    [] Kind = "eff" -> <<OutOf("pubKeyX", w)[1], OutOf("pubKeyY", w)[1]>> = Key(Val("s"), Pt("Tx", "Ty"), Pt("Ux", "Uy"))
    [] Kind = "toaddr" -> OutOf("addr", w)[1] = Addr(Key(Val("s"), Pt("Tx", "Ty"), Pt("Ux", "Uy")))
    [] Kind = "tree" -> /\ \A k \in 1..C.depth : IsBit(Vals("pathIndices")[k])
                        /\ OutOf("root", w)[1] = Root(Val("leaf"), Vals("pathIndices"), Vals("siblings"))
    [] Kind \in {"pkmem", "addrmem"} ->
         /\ \A k \in 1..C.depth : IsBit(Vals("pathIndices")[k])
         /\ Val("root") = Root(LeafOf(Key(Val("s"), Pt("Tx", "Ty"), Pt("Ux", "Uy"))), Vals("pathIndices"), Vals("siblings"))
\* inputs that must have a witness
Provable(f) ==
  CASE Kind = "tree" -> \A k \in 1..C.depth : IsBit(f.pathIndices[k])
    [] Kind \in {"pkmem", "addrmem"} ->
         /\ \A k \in 1..C.depth : IsBit(f.pathIndices[k])
         /\ f.root = Root(LeafOf(Key(f.s, <<f.Tx, f.Ty>>, <<f.Ux, f.Uy>>)), f.pathIndices, f.siblings)
    [] OTHER -> TRUE

\* ---- all assignments
N == Len(C.steps)
Start == CHOOSE r \in {(0 :> 1)} : TRUE
Init == i = 0 /\ mode \in {"any", "own"} /\ w = Start
Choose == /\ i = 0 /\ mode = "any" /\ i' = 1 /\ UNCHANGED mode
          /\ \E f \in Domain : w' = Give(f) @@ Start /\ InputsHold(w')
Solve == /\ i > 0 /\ i <= N /\ mode = "any" /\ i' = i + 1 /\ UNCHANGED mode
         /\ \E u \in After(i, w) : w' = u
\* the circuit's own witnesses, one for each of the inputs that must have one
Own == /\ i = 0 /\ mode = "own" /\ i' = N + 1 /\ UNCHANGED mode
       /\ \E k \in 1..Len(C.honest) :
            /\ Provable(C.honest[k].in)
            /\ LET h == C.honest[k].w IN w' = [j \in 0..Len(h) |-> IF j = 0 THEN 1 ELSE h[j]]
Next == Choose \/ Solve \/ Own
Spec == Init /\ [][Next]_vars
Complete == i = N + 1
OwnIns == TLCEval({C.honest[k].in : k \in 1..Len(C.honest)})
Covered == (i = 0 /\ mode = "own") =>
             /\ \A f \in Domain : Provable(f) => f \in OwnIns
             /\ \A k \in 1..Len(C.honest) : LET g == Give(C.honest[k].in) IN \A j \in DOMAIN g : C.honest[k].w[j] = g[j]
OnlyRight == (mode = "any" /\ Complete) => Right
Witness == (mode = "own" /\ Complete) =>
             /\ DOMAIN w = 0..(C.wires - 1)
             /\ \A k \in 1..Len(C.cons) : Holds(C.cons[k], w)
             /\ Right
=============================================================================
