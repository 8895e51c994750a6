------------------------------- MODULE CGTrace -------------------------------
(* Recorded runs of cg.  A run may stop where its residual is within a       *)
(* rounding error of the limit.                                             *)
EXTENDS TraceBase, CGDef

RECURSIVE Runs(_, _, _)
(* exact iterates until the run has to stop                                 *)
Runs(P, s, lim) ==
  IF s.k >= P.maxiter \/ RLe(s.gamma, RMul(lim, "1p-30")) \/ REq(s.gamma, 0) THEN <<s>>
  ELSE <<s>> \o Runs(P, Force(Step(P, s)), lim)

TraceFailing(t) ==
  LET c == t.case IN
  IF t.outcome # "ok" THEN {"returns"}
  ELSE IF ~t.same_structure THEN {"solution_has_the_structure_of_b"} ELSE
  LET P == [A |-> t.A, M |-> t.M, w |-> t.w, b |-> t.b, x0 |-> t.x0, tol |-> t.tol, atol |-> t.atol,
            maxiter |-> c.maxiter]
      lim == Limit(P)
      runs == Force(Runs(P, Start(P), lim))
      g0 == runs[1].gamma
      eps == c.eps
      high(i) == RLe(RMul(lim, RSub(1, eps)), runs[i].gamma)   \* may go on
      low(i) == RLe(runs[i].gamma, RMul(lim, RAdd(1, eps)))    \* may stop
      k == t.iterations
      xs == VMaxAbs(runs[Len(runs)].x)
      scale == RAdd(RMax(RMul(xs, 4), VMaxAbs(P.x0)), "1p-20")
  IN
  IF k < 0 \/ k + 1 > Len(runs) THEN {"stops_in_time"} ELSE
  Clause("stops_exactly_when_converged",
     /\ \A i \in 1..k : high(i)
     /\ (low(k + 1) \/ k = P.maxiter))
  \cup Clause("iterate_of_that_step", VNear(t.x, runs[k + 1].x, RMul(scale, eps)))
  \cup Clause("reported_residual",
     RNear(t.residual, runs[k + 1].gamma,
           RAdd(RMul(runs[k + 1].gamma, eps), RMul(RMul(eps, eps), RAdd(g0, "1p-20")))))
=============================================================================
