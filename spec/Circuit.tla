------------------------------ MODULE Circuit ------------------------------
(* A system of quadratic constraints over F_P (P small) and all assignments that satisfy it.

   The system is read from the file the environment names; it comes from the circuit's source text.
   Wires are numbered, 0 is the constant one.  The assignments are built step by step: a step gives
   values to one wire, or to the bits of one decomposition, such that every constraint whose wires are
   then all known holds.  A wire no later constraint mentions is forgotten afterwards. *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils, SequencesExt
C == JsonDeserialize(IOEnv.CIRCUIT)
P == C.p
E == 0..(P - 1)
InvTable == TLCEval([d \in 1..(P - 1) |-> CHOOSE v \in 1..(P - 1) : (v * d) % P = 1])
Inv(d) == InvTable[d % P]

\* linear forms are sequences of <<wire, coefficient>>, constraints <<a, b, c>> mean a * b = c
Lin(t, w) == FoldLeft(LAMBDA acc, x : (acc + x[2] * w[x[1]]) % P, 0, t)
Res(c, w) == (Lin(c[1], w) * Lin(c[2], w) - Lin(c[3], w)) % P
Holds(c, w) == Res(c, w) = 0
Sets(w, i, v) == (i :> v) @@ w

\* the values of wire i that satisfy c, all its other wires being known: c is a quadratic in it
Roots(c, i, w, S) ==
  LET f0 == Res(c, Sets(w, i, 0))  f1 == Res(c, Sets(w, i, 1))  f2 == Res(c, Sets(w, i, P - 1))
      quad == ((f1 + f2 - 2 * f0) * Inv(2)) % P          \* f(v) = f0 + lin v + quad v^2
      lin == (f1 - f0 - quad) % P
  IN IF quad = 0
     THEN IF lin # 0 THEN {((P - f0) * Inv(lin)) % P} \cap S ELSE IF f0 = 0 THEN S ELSE {}
     ELSE {v \in S : (f0 + v * ((lin + quad * v) % P)) % P = 0}
Values(st, w) == FoldLeft(LAMBDA S, c : IF S = {} THEN S ELSE Roots(c, st.wires[1], w, S), E, st.cons)

\* the bits of a decomposition: wires b with b (b - 1) = 0 each, and one linear constraint in which they
\* have the coefficients k, 2k, 4k, ...: they are the bits of the numbers t with k t + rest = 0
Bit(t, j) == (t \div (2 ^ (j - 1))) % 2
Bits(st, w) ==
  LET m == Len(st.wires)
      lin == st.cons[Len(st.cons)]
      zero == [j \in {st.wires[x] : x \in 1..m} |-> 0]
      at(t) == [j \in {st.wires[x] : x \in 1..m} |-> Bit(t, CHOOSE x \in 1..m : st.wires[x] = j)]
      k == (Res(lin, (at(1) @@ w)) - Res(lin, (zero @@ w))) % P
      t0 == ((P - Res(lin, (zero @@ w))) * Inv(k)) % P
      ts == {t \in {t0 + P * a : a \in 0..((2 ^ m) \div P)} : t < 2 ^ m}
  IN {at(t) : t \in ts}
IsBits(st) ==                                  \* what Bits relies on
  LET m == Len(st.wires)  lin == st.cons[Len(st.cons)]
      coef(j) == FoldLeft(LAMBDA acc, x : IF x[1] = st.wires[j] THEN acc + x[2] ELSE acc, 0, lin[3])
      bool(c, i) == /\ Res(c, (0 :> 1) @@ (i :> 0)) = 0 /\ Res(c, (0 :> 1) @@ (i :> 1)) = 0
                    /\ Res(c, (0 :> 1) @@ (i :> 2)) # 0
  IN /\ Len(st.cons) = m + 1 /\ lin[1] = <<>>
     /\ \A j \in 1..m : bool(st.cons[j], st.wires[j]) /\ coef(j) = (coef(1) * 2 ^ (j - 1)) % P
     /\ coef(1) % P # 0
ASSUME \A i \in 1..Len(C.steps) : C.steps[i].bits => IsBits(C.steps[i])

Solutions(st, w) == IF st.bits THEN Bits(st, w)
                    ELSE {st.wires[1] :> v : v \in Values(st, w)}
Keep(w, ks) == [j \in (DOMAIN w) \cap ks |-> w[j]]
KeepOf == TLCEval([i \in 1..Len(C.steps) |-> {C.steps[i].keep[k] : k \in 1..Len(C.steps[i].keep)}])
\* the assignments after one more step; of a wire that is forgotten at once, one value stands for all
After(i, w) ==
  LET st == C.steps[i]  s == Solutions(st, w)  ks == KeepOf[i]
  IN IF s = {} THEN {}
     ELSE IF \A x \in 1..Len(st.wires) : st.wires[x] \notin ks THEN {Keep(w, ks)}
     ELSE {Keep(u @@ w, ks) : u \in s}
InputsHold(w) == \A k \in 1..Len(C.pre) : Holds(C.pre[k], w)
OutOf(n, w) == LET o == C.outs[n] IN [k \in 1..Len(o) |-> Lin(o[k], w)]
=============================================================================
