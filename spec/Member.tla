------------------------------- MODULE Member -------------------------------
(* Who can make the verifier say yes.  Keys sign messages; a tree of keys has a root; a proof is bound to a
   circuit and five field values, and can only be made by one who knows a signature whose key, together
   with a path, fits those values; the verifier checks the proof against the circuit it loads and the
   values in the public input, and the values against r, v and the message.  The adversary knows every
   signature ever made and every proof ever made, builds any public input, and calls the verifier with any
   combination, in any order. *)
EXTENDS Naturals, FiniteSets
CONSTANTS Keys, Outsiders, Msgs, Nonces, Roots,   \* Roots: which keys are under which root
          Circuits, MaxEv,
          Under(_)                                \* the keys under a root
VARIABLES sigs, proofs,
          verdict,          \* the last one
          n
vars == <<sigs, proofs, verdict, n>>

\* r, v determine the nonce's point; T is a function of it, U of it and the message
TSym(r) == <<"T", r>>
USym(r, m) == <<"U", r, m>>
\* points of the adversary's choice: with one of them, s T + U can be made any key
TOwn == <<"T", "own">>
UOwn == <<"U", "own", "own">>
Sig(k, m, r) == [key |-> k, msg |-> m, r |-> r]
Stmt(c, root, T, U) == [circuit |-> c, root |-> root, T |-> T, U |-> U]
PubIn(r, m, root, T, U) == [r |-> r, msg |-> m, root |-> root, T |-> T, U |-> U]
Nobody == Stmt("none", "none", <<"T", "none">>, <<"U", "none", "none">>)     \* bytes that are no proof

None == [circuit |-> "none", pub |-> PubIn("none", "none", "none", <<"T", "none">>, <<"U", "none", "none">>), out |-> FALSE]
Init == sigs = {} /\ proofs = {} /\ verdict = None /\ n = 0
Sign == \E k \in Keys \cup Outsiders, m \in Msgs, r \in Nonces :
          /\ \A s \in sigs : s.r # r                \* a nonce is used once
          /\ sigs' = sigs \cup {Sig(k, m, r)} /\ UNCHANGED <<proofs, verdict>>
Ts == {TSym(r) : r \in Nonces}
Us == {USym(r, m) : r \in Nonces, m \in Msgs}
\* a proof exists only for a signature known, of a key under the root
Prove == \E s \in sigs, c \in Circuits, root \in Roots :
           /\ s.key \in Under(root)
           /\ proofs' = proofs \cup {Stmt(c, root, TSym(s.r), USym(s.r, s.msg))} /\ UNCHANGED <<sigs, verdict>>
Forge == \E c \in Circuits, root \in Roots, T \in Ts \cup {TOwn}, U \in Us \cup {UOwn} :
           /\ Under(root) # {} /\ (T = TOwn \/ U = UOwn)
           /\ proofs' = proofs \cup {Stmt(c, root, T, U)} /\ UNCHANGED <<sigs, verdict>>
PubOk(p) == p.T = TSym(p.r) /\ p.U = USym(p.r, p.msg)
ProofOk(c, q, p) == q = Stmt(c, p.root, p.T, p.U)
Verdict(c, q, p) == PubOk(p) /\ ProofOk(c, q, p)
Verify == \E c \in Circuits, q \in proofs \cup {Nobody}, r \in Nonces, m \in Msgs, root \in Roots, T \in Ts \cup {TOwn}, U \in Us \cup {UOwn} :
            /\ verdict' = [circuit |-> c, pub |-> PubIn(r, m, root, T, U), out |-> Verdict(c, q, PubIn(r, m, root, T, U))]
            /\ UNCHANGED <<sigs, proofs>>
Next == \/ n < MaxEv /\ n' = n + 1 /\ (Sign \/ Prove \/ Forge \/ Verify)
        \/ n = MaxEv /\ UNCHANGED vars
Spec == Init /\ [][Next]_vars

\* yes means: a key under that root signed that message with that r
OnlyMembers == LET d == verdict IN d.out =>
                 \E s \in sigs : s.key \in Under(d.pub.root) /\ s.msg = d.pub.msg /\ s.r = d.pub.r
\* and a member who has signed and proved is never turned away
Accepted == \A q \in proofs : \A r \in Nonces, m \in Msgs :
              (q.T = TSym(r) /\ q.U = USym(r, m)) => Verdict(q.circuit, q, PubIn(r, m, q.root, q.T, q.U))
=============================================================================
