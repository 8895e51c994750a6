----------------------------- MODULE ScheduleTrace -----------------------------
EXTENDS TraceBase, ScheduleDef
Near(a, b, scale) == RNear(a, b, RMul("1p-19", scale))
TraceFailing(t) ==
  LET c == t.case IN
  IF t.outcome # "ok" THEN {"returns"} ELSE
  Clause("learning_rate", \A i \in DOMAIN t.steps : Near(t.lr[i], LearningRate(c, t.steps[i]), c.base))
  \cup Clause("updown_learning_rate",
     \A i \in DOMAIN t.steps : Near(t.updown[i], UpDown(c, t.steps[i]), c.base))
  \cup Clause("kl_penalty",
     \A i \in DOMAIN t.steps : Near(t.kl[i], KLPenalty(c, t.steps[i]), c.penalty))
=============================================================================
