-------------------------------- MODULE CGDef --------------------------------
(* Preconditioned conjugate gradients, exactly (rounded to 200 bits).        *)
(* P: [A |-> matrix, M |-> matrix (preconditioner), w |-> weights of the dot *)
(* product, b, x0, tol, atol, maxiter].  The operator is diag(1/w) A.        *)
EXTENDS Integers, Sequences, FiniteSets, TLC, BigRat

Op(P, x) == [i \in DOMAIN x |-> RDiv(VDot(P.A[i], x), P.w[i])]
Dot(P, x, y) == VDot(P.w, VMul(x, y))
Short(v) == VRound(v, 200)
Limit(P) == RMax(RMul(RMul(P.tol, P.tol), Dot(P, P.b, P.b)), RMul(P.atol, P.atol))

Start(P) ==
  LET r == Force(VSub(P.b, Op(P, P.x0)))
      z == Force(MatVec(P.M, r))
  IN  [x |-> P.x0, r |-> r, p |-> z, gamma |-> Dot(P, r, z), k |-> 0]
Step(P, s) ==
  LET q == Force(Op(P, s.p))
      alpha == RDiv(s.gamma, Dot(P, s.p, q))
      r == Force(Short(VSub(s.r, VScale(alpha, q))))
      z == Force(MatVec(P.M, r))
      g == RRound(Dot(P, r, z), 200)
  IN  [x |-> Force(Short(VAdd(s.x, VScale(alpha, s.p)))), r |-> r,
       p |-> Force(Short(VAdd(z, VScale(RDiv(g, s.gamma), s.p)))),
       gamma |-> g, k |-> s.k + 1]
=============================================================================
