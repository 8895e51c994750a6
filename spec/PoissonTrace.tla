----------------------------- MODULE PoissonTrace -----------------------------
(* Recorded solve_poisson: u satisfies the discrete equations.              *)
EXTENDS TraceBase, FEDef

ToS(q) == {q[i] : i \in DOMAIN q}
TraceFailing(t) ==
  LET c == t.case IN
  IF c.kind = "refused" THEN Clause("other_conditions_are_refused", t.outcome = "ok" /\ t.refused)
  ELSE IF t.outcome # "ok" THEN {"returns"}
  ELSE IF Len(t.u) # Len(t.coords) THEN {"one_value_per_node"} ELSE
  LET d == c.d
      B == RefBasis(d, t.nodes, t.evals, t.weights)
      Q == Len(B.w)
      K == Len(B.v[1])
      N == Len(t.coords)
      Es == DOMAIN t.elements
      X == Force([e \in Es |-> [k \in 1..K |-> t.coords[t.elements[e][k] + 1]]])
      E == Force([e \in Es |-> Element(B, X[e])])
      loc(v, e) == Force([k \in 1..K |-> v[t.elements[e][k] + 1]])
      (* element residual: integral of f phi_k - grad u . grad phi_k        *)
      F == Force([e \in Es |-> [q \in 1..Q |-> RMul(RMul(B.w[q], E[e].det[q]), VDot(B.v[q], loc(t.forcing, e)))]])
      G == Force([e \in Es |-> [q \in 1..Q |->
             LET u == loc(t.u, e) IN
             [j \in 1..d |-> RMul(RMul(B.w[q], E[e].det[q]), VDot([k \in 1..K |-> E[e].g[q][k][j]], u))]]])
      bl == Force([e \in Es |-> [k \in 1..K |-> VSum([q \in 1..Q |-> RMul(F[e][q], B.v[q][k])])]])
      al == Force([e \in Es |-> [k \in 1..K |-> VSum([q \in 1..Q |-> VDot(G[e][q], E[e].g[q][k])])]])
      at == Force([i \in 1..N |-> {o \in Es \X (1..K) : t.elements[o[1]][o[2]] + 1 = i}])
      RECURSIVE Sum(_, _)
      Sum(m, S) == IF S = {} THEN "0" ELSE LET o == CHOOSE o \in S : TRUE
                                           IN RAdd(m[o[1]][o[2]], Sum(m, S \ {o}))
      fixed == ToS(c.fixed)
      b == Force([i \in 1..N |-> IF i - 1 \in fixed THEN "0" ELSE RRound(Sum(bl, at[i]), 160)])
      a == Force([i \in 1..N |-> IF i - 1 \in fixed THEN "0" ELSE RRound(Sum(al, at[i]), 160)])
      r == VSub(b, a)
      lim == RMax(RMul(RMul(t.rtol, t.rtol), VDot(b, b)), RMul(t.atol, t.atol))
      size == RAdd(VDot(a, a), VDot(b, b))
  IN
  Clause("zero_where_u_is_prescribed", \A i \in fixed : REq(t.u[i + 1], 0))
  \cup Clause("discrete_equations_hold_within_the_tolerance",
     RLe(VDot(r, r), RAdd(RMul(lim, "17/16"), RMul(size, "1p-70"))))
=============================================================================
