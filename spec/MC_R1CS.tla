------------------------------ MODULE MC_R1CS ------------------------------
(* Explores small systems entry by entry, and all their assignments. *)
EXTENDS R1CS, FiniteSets
CONSTANTS MaxCons, MaxVars, MaxIns, MaxEntries
VARIABLES sys, circ           \* a system; a circuit with the number of its public wires
Elements == 0..(P - 1)
Vecs(n) == [1..n -> Elements]
Init == /\ \E nc \in 0..MaxCons, nv \in 0..MaxVars, ni \in 0..MaxIns :
             sys = [nc |-> nc, nv |-> nv, ni |-> ni, A |-> <<>>, B |-> <<>>, C |-> <<>>]
        /\ \E w \in 1..(MaxVars + 1) : circ = [wires |-> w, npub |-> 0, cons |-> <<>>]
        /\ (sys.nc = 0 /\ sys.nv = 0 /\ sys.ni = 0) \/ circ.wires = 1     \* one of the two is explored
Size == Len(sys.A) + Len(sys.B) + Len(sys.C)
Entry(t) == /\ Size < MaxEntries /\ EntryOk(sys, t)
            /\ \/ sys' = [sys EXCEPT !.A = Append(@, t)] \/ sys' = [sys EXCEPT !.B = Append(@, t)] \/ sys' = [sys EXCEPT !.C = Append(@, t)]
            /\ UNCHANGED circ
CSize == FoldLeft(LAMBDA a, k : a + Len(k[1]) + Len(k[2]) + Len(k[3]), 0, circ.cons)
Wire(k, j, t) == /\ CSize < MaxEntries /\ circ' = [circ EXCEPT !.cons[k][j] = Append(@, t)] /\ UNCHANGED sys
Next == \/ circ.wires = 1 /\ \E r \in 0..(MaxCons - 1), c \in 0..(MaxVars + MaxIns), v \in Elements \ {F0} : Entry(<<r, c, v>>)
        \/ circ.wires > 1 /\ Len(circ.cons) < MaxCons /\ circ' = [circ EXCEPT !.cons = Append(@, <<<<>>, <<>>, <<>>>>)] /\ UNCHANGED sys
        \/ circ.wires > 1 /\ circ.npub < circ.wires - 1 /\ circ.cons = <<>> /\ circ' = [circ EXCEPT !.npub = @ + 1] /\ UNCHANGED sys
        \/ circ.wires > 1 /\ \E k \in 1..Len(circ.cons), j \in 1..3, w \in 0..(circ.wires - 1), v \in Elements \ {F0} : Wire(k, j, <<w, v>>)
Spec == Init /\ [][Next]_<<sys, circ>>
\* padding changes neither the solutions nor the shape the proof needs
PadKeeps == circ.wires = 1 =>
  LET p == Now(Pad(sys)) IN
  /\ WellFormed(p) /\ p.nv > p.ni /\ p.nv >= sys.nv /\ p.nc >= MaxOf(sys.nc, 2)
  /\ Pow2Ceil(p.nc) = p.nc /\ Pow2Ceil(p.nv) = p.nv
  /\ \A x \in Vecs(sys.nv), i \in Vecs(sys.ni) : Sat(sys, x, i) = Sat(p, PadVars(x, p.nv), i)
\* the extensions agree with the matrices on the cube
MleAgrees == circ.wires = 1 =>
  LET p == Now(Pad(sys))
      kx == Log2(p.nc) ky == Log2(2 * p.nv)
      Bit(k, i) == [j \in 1..k |-> IF BitsOf(i, k)[j] = 1 THEN F1 ELSE F0]
      At(M, r, c) == FoldLeft(LAMBDA a, t : IF t[1] = r /\ t[2] = c THEN FAdd(a, t[3]) ELSE a, F0, M)
  IN \A r \in 0..(p.nc - 1), c \in 0..(2 * p.nv - 1) : MatMle(p.A, Bit(kx, r), Bit(ky, c)) = At(p.A, r, c)
\* converting binds the constant and the public wires: exactly the solutions of the circuit with those inputs
ConvertBinds == circ.wires > 1 =>
  LET s == Now(Convert(circ.cons, circ.wires, circ.npub)) IN
  /\ WellFormed(s)
  /\ \A x \in Vecs(circ.wires), i \in Vecs(circ.npub) : Sat(s, x, i) = CircuitSat(circ.cons, Bound(x, i, circ.wires))
=============================================================================
