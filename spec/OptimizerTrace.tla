---------------------------- MODULE OptimizerTrace ----------------------------
(* Recorded training states: t.xs are the parameters before and after every    *)
(* update by c.grads, t.rates the learning rate asked for.                      *)
EXTENDS TraceBase, OptimizerDef

RECURSIVE States(_, _)
States(c, n) ==
  IF n = 0 THEN <<Start(c.x0)>>
  ELSE CHOOSE r \in {Append(h, Update(h[n], c.grads[n], RAdd(c.base, RMul(c.slope, n - 1)), c.decay, c.limit))
                     : h \in {States(c, n - 1)}} : TRUE
Near(a, b) == \A i \in DOMAIN b : RNear(a[i], b[i], RMul("1p-40", RAdd(1, RAbs(b[i]))))
TraceFailing(t) ==
  IF t.outcome # "ok" THEN {"returns"} ELSE
  LET c == t.case
      want == States(c, Len(c.grads))
  IN  Clause("initial_parameters", /\ t.steps[1] = 0
                                   /\ \A i \in DOMAIN c.x0 : REq(t.xs[1][i], c.x0[i])
                                   /\ t.init.channels = c.channels /\ t.init.elements = c.elements
                                   /\ t.init.ones /\ t.init.keys_differ /\ t.init.dtype = c.dtype
                                   /\ t.init.key_matters /\ t.init.repeatable)
      \cup Clause("apply_function", t.apply)
      \cup Clause("updates", Len(t.xs) = Len(want) /\ \A n \in DOMAIN want : Near(t.xs[n], want[n].x))
      \cup Clause("counter", \A n \in DOMAIN t.steps : t.steps[n] = n - 1)
=============================================================================
