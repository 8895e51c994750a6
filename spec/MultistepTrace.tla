--------------------------- MODULE MultistepTrace ---------------------------
EXTENDS TraceBase, TimeScheme
Near(a, b) == /\ Len(a) = Len(b)
              /\ \A i \in DOMAIN a : RNear(a[i], b[i], RMul("1p-38", VMaxAbs(b)))
TraceFailing(t) ==
  IF t.outcome # "ok" THEN {"returns"}
  ELSE Clause("backward_differentiation", Near(t.bdf, Bdf(t.case.k)))
       \cup Clause("extrapolation", Near(t.ext, Ext(t.case.k)))
=============================================================================
