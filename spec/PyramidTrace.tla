----------------------------- MODULE PyramidTrace -----------------------------
(* Recorded outputs of the closure network.                                   *)
EXTENDS TraceBase, NetworkDef

Tol == "1p-28"
Near(a, b) == \A i \in DOMAIN b : \A j \in DOMAIN b[i] : RNear(a[i][j], b[i][j], RMul(Tol, RAdd(1, RAbs(b[i][j]))))
Shaped(y, n, m) == Len(y) = n /\ \A i \in DOMAIN y : Len(y[i]) = m
TraceFailing(t) ==
  IF t.outcome # "ok" THEN {"returns"} ELSE
  LET c == t.case
      ok == Len(t.y) = Len(c.x) /\ \A b \in DOMAIN t.y : Shaped(t.y[b], c.tokens, c.channels)
  IN  IF c.kind = "fresh" THEN
        Clause("shape", ok)
        \cup Clause("no_force_before_training",
               ok /\ \A b \in DOMAIN t.y : \A i \in DOMAIN t.y[b] : RLt(VMaxAbs(t.y[b][i]), "1/50000"))
        \cup Clause("parameters_depend_on_key", t.differ)
        \cup Clause("reports", \A f \in DOMAIN t.aux : \A b \in DOMAIN c.x : REq(t.aux[f][b], 0))
      ELSE Clause("shape", ok)
           \cup (IF ~ok THEN {} ELSE
                 UNION {Clause("output", Near(t.y[b], Forward(c, t.params, c.x[b]))) : b \in DOMAIN c.x})
           \cup Clause("reports", \A f \in DOMAIN t.aux : Len(t.aux[f]) = Len(c.x)
                                    /\ \A b \in DOMAIN c.x : REq(t.aux[f][b], 0))
=============================================================================
