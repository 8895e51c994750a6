-------------------------------- MODULE Poisson --------------------------------
(***************************************************************************)
(* The discrete Poisson problem: assemble, eliminate the Dirichlet nodes by  *)
(* masking rows, and solve by conjugate gradients.                          *)
(***************************************************************************)
EXTENDS FESmall, CGDef
CONSTANTS Shifts, Forcings, Emit
VARIABLES mesh, sides, load, prob, s, done

Side(k) == {i \in Nodes : CASE k = 1 -> i \in {1, 2, 3} [] k = 2 -> i \in {7, 8, 9}
                            [] k = 3 -> i \in {1, 4, 7} [] OTHER -> i \in {3, 6, 9}}
Masked == UNION {Side(k) : k \in sides}
MaskV(v) == [i \in Nodes |-> IF i \in Masked THEN "0" ELSE v[i]]
MaskM(A) == [i \in Nodes |-> IF i \in Masked THEN [j \in Nodes |-> "0"] ELSE A[i]]
Whole(form) == LET C == Force([e \in 1..4 |-> Contribution(mesh, e, form)]) IN
               MAdd(MAdd(C[1], C[2]), MAdd(C[3], C[4]))
F == [i \in Nodes |-> IF i \in load THEN 1 ELSE 0]

Init == /\ mesh \in {[cx |-> a, cy |-> b, by |-> 32] : a, b \in Shifts}
        /\ sides \in (SUBSET (1..4)) \ {{}}
        /\ load \in Forcings
        /\ prob = [A |-> <<>>] /\ s = [k |-> -1] /\ done = FALSE
Assemble == /\ s.k = -1
            /\ prob' = Force([A |-> MaskM(Whole("stiffness")), M |-> [i \in Nodes |-> [j \in Nodes |-> IF i = j THEN 1 ELSE 0]],
                        w |-> [i \in Nodes |-> 1], b |-> MaskV(MatVec(Whole("mass"), F)),
                        x0 |-> [i \in Nodes |-> 0], tol |-> "1p-30", atol |-> 0, maxiter |-> 90])
            /\ s' = Force(Start(prob'))
            /\ UNCHANGED <<mesh, sides, load, done>>
Solve == /\ s.k >= 0 /\ ~done
         /\ IF RLt(Limit(prob), s.gamma) /\ s.k < prob.maxiter
            THEN s' = Force(Step(prob, s)) /\ done' = FALSE
            ELSE done' = TRUE /\ s' = s
         /\ UNCHANGED <<mesh, sides, load, prob>>
Next == Assemble \/ Solve
Spec == Init /\ [][Next]_<<mesh, sides, load, prob, s, done>> /\ WF_<<mesh, sides, load, prob, s, done>>(Next)

Terminates == <>done
Free == Nodes \ Masked
MaskedStayZero == s.k >= 0 => \A i \in Masked : REq(s.x[i], 0) /\ REq(s.r[i], 0) /\ REq(s.p[i], 0)
(* on the free nodes the masked operator is symmetric: CG applies           *)
SymmetricOnFree == s.k >= 0 => \A i, j \in Free : RNear(prob.A[i][j], prob.A[j][i], "1p-100")
AtMostFree == s.k <= Cardinality(Free)
(* Galerkin: the energy of the solution is its load                        *)
EnergyIsLoad == done => RNear(VDot(s.x, MatVec(prob.A, s.x)), VDot(s.x, prob.b),
                              RMul(RAdd(1, VDot(s.x, prob.b)), "1p-25"))
(* the work of a non-negative load is non-negative                          *)
Positive == done => RLe(0, VDot(s.x, prob.b))
Inv == /\ MaskedStayZero /\ SymmetricOnFree /\ AtMostFree /\ EnergyIsLoad /\ Positive
       /\ (Emit /\ done => PrintT("CASE " \o ToJson([mesh |-> CaseMesh(mesh), sides |-> sides, load |-> load])))
=============================================================================
