------------------------------- MODULE Legendre -------------------------------
(***************************************************************************)
(* The Legendre polynomials by their recurrence, one per step, with the      *)
(* facts that Gaussian quadrature rests on: orthogonality to everything of   *)
(* lower degree, the value 1 at 1, and Legendre's equation.  The roots of    *)
(* P_n (resp. +-1 and the roots of P_(n-1)') are the Gauss-Legendre (resp.    *)
(* Gauss-Lobatto-Legendre) nodes; recorded nodes are checked to be them.     *)
(***************************************************************************)
EXTENDS Poly, Json
CONSTANTS MaxN, Emit
VARIABLES hist     \* <<P_0, ..., P_n>>

Init == hist = <<<<"1">>, <<"0", "1">>>>
n == Len(hist) - 1
Next == /\ n < MaxN
        /\ hist' = Append(hist, Force(PScale(RDiv(1, n + 1),
              PAdd(PScale(2 * n + 1, PShift(hist[n + 1])), PScale(-n, hist[n])))))
Spec == Init /\ [][Next]_hist
P == hist[n + 1]
Degree == Len(P) = n + 1 /\ ~REq(P[n + 1], 0)
AtOne == REq(PEval(P, 1), 1)
Orthogonal == \A m \in 0..(n - 1) : REq(PInt(PMul(P, hist[m + 1])), 0)
Norm == REq(PInt(PMul(P, P)), RDiv(2, 2 * n + 1))
Equation == PZero(PAdd(PAdd(PMul(<<"1", "0", "-1">>, PDer(PDer(P))), PScale(-2, PShift(PDer(P)))),
                       PScale(n * (n + 1), P)))
Inv == /\ Degree /\ AtOne /\ Orthogonal /\ Norm /\ Equation
       /\ (Emit => PrintT("CASE " \o ToJson([n |-> n, p |-> [i \in DOMAIN P |-> RStr(P[i])],
            dp |-> [i \in DOMAIN PDer(P) |-> RStr(PDer(P)[i])]])))
=============================================================================
