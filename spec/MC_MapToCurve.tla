-------------------------- MODULE MC_MapToCurve --------------------------
(* The map over every small field element: it is total, lands on the target curve, its sign rule is
   symmetric, the isogeny is a homomorphism with trivial rational kernel, and the preimage of the
   exceptional denominators is handled. *)
EXTENDS MapToCurve, FiniteSets, TLC
VARIABLES u, v
E == 0..(P - 1)
Init == u \in E /\ v \in E
Next == UNCHANGED <<u, v>>
Spec == Init /\ [][Next]_<<u, v>>
OnSource(Q) == EcOnCurve(P, IA, IB, Q)
OnTarget(Q) == EcOnCurve(P, F0, CB, Q)
SourcePoints == {Q \in {<<x, y>> : x \in E, y \in E} : OnSource(Q)} \cup {<<>>}
IsoE(Q) == IF Q = <<>> THEN <<>> ELSE Iso(Q)
Constants == Codomain /\ KernelOk /\ ZOk
Total == /\ OnSource(Sswu(u)) /\ FOdd(Sswu(u)[2]) = FOdd(u)
         /\ OnTarget(Map(u)) /\ OnTarget(MapPair(u, v))
         /\ SswuX(u) = SswuX(FNeg(u))
Homomorphism == \A X, Y \in {Q \in SourcePoints : Q # <<>> /\ Q[1] \in {u, v}} :
                   /\ OnTarget(IsoE(X))
                   /\ EcAdd(P, F0, IsoE(X), IsoE(Y)) = IsoE(EcAdd(P, IA, X, Y))
                   /\ (X # Y => IsoE(X) # IsoE(Y))
=============================================================================
