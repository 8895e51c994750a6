------------------------------ MODULE InterpTrace ------------------------------
(* Recorded BarycentricInterpolator.                                        *)
EXTENDS TraceBase, Poly, Cube

TraceFailing(t) ==
  LET c == t.case
      d == c.d
      xs == t.nodes
      es == t.evals
      n == Len(xs)
      m == Len(es)
      L == LagMatrix(xs, es)
      D == DLagMatrix(xs, es)
      Q == IPow(m, d)
      K == IPow(n, d)
      mq == Force([q \in 1..Q |-> Multi(q - 1, d, m)])
      mk == Force([k \in 1..K |-> Multi(k - 1, d, n)])
      phi(q, k) == VProd([i \in 1..d |-> L[mq[q][i] + 1][mk[k][i] + 1]])
      dphi(q, k, a) == VProd([i \in 1..d |-> IF i = a THEN D[mq[q][i] + 1][mk[k][i] + 1]
                                             ELSE L[mq[q][i] + 1][mk[k][i] + 1]])
  IN
  IF t.outcome # "ok" THEN {"returns"}
  ELSE IF n # c.num \/ m # c.enum THEN {"shapes"}
  ELSE
  Clause("interpolation_matrix",
     /\ Len(t.matrix) = Q
     /\ \A q \in 1..Q : /\ Len(t.matrix[q]) = K
                        /\ \A k \in 1..K : RNear(t.matrix[q][k], phi(q, k), c.tol))
  \cup Clause("gradient_matrix",
     /\ Len(t.gradient) = Q
     /\ \A q \in 1..Q : /\ Len(t.gradient[q]) = K
                        /\ \A k \in 1..K : /\ Len(t.gradient[q][k]) = d
                                           /\ \A a \in 1..d : RNear(t.gradient[q][k][a], dphi(q, k, a), c.dtol))
  \cup Clause("interpolated_values",
     /\ Len(t.values) = Q
     /\ \A q \in 1..Q : RNear(t.values[q], VDot([k \in 1..K |-> phi(q, k)], c.u), c.utol))
  \cup Clause("interpolated_gradient",
     /\ Len(t.grads) = Q
     /\ \A q \in 1..Q : \A a \in 1..d :
          RNear(t.grads[q][a], VDot([k \in 1..K |-> dphi(q, k, a)], c.u), c.udtol))
  \cup Clause("dtype_of_values", t.dtype = c.dtype)
=============================================================================
