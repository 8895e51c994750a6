-------------------------- MODULE JitDistributedTrace --------------------------
(* The function of the harness, on device p (0-based), returns              *)
(*   lin  = 1000*p + sum over sharded, given i of i * x_i[p]                *)
(*                 + sum over static i of 100*i * s_i                       *)
(*   stat = the tuple of its static values                                  *)
(*   vec  = p added to each entry of the (trailing axes of) sharded inputs  *)
(* and a static default is 7.  A history is a sequence of calls of one      *)
(* compiled function.                                                       *)
EXTENDS TraceBase

RECURSIVE SumOver(_, _)
SumOver(S, f) == IF S = {} THEN 0
                 ELSE LET i == CHOOSE i \in S : TRUE IN f[i] + SumOver(S \ {i}, f)

StaticVal(c, call, i) == IF call.omitted[i] THEN 7 ELSE call.values[i]
Lin(c, call, p) ==
  1000 * (p - 1) + SumOver(DOMAIN c.params,
    [i \in DOMAIN c.params |->
       IF c.params[i].static THEN 100 * i * StaticVal(c, call, i)
       ELSE IF call.omitted[i] THEN 0 ELSE i * call.values[i][p]])

CallFails(c, call, out) ==
  IF "error" \in DOMAIN out THEN {"returns"} ELSE
  LET statics == SelectSeq([i \in DOMAIN c.params |-> i], LAMBDA i : c.params[i].static)
      given == SelectSeq([i \in DOMAIN c.params |-> i],
                         LAMBDA i : ~c.params[i].static /\ ~call.omitted[i])
  IN  Clause("per_device_result",
        /\ Len(out.lin) = c.P
        /\ \A p \in 1..c.P : out.lin[p] = Lin(c, call, p))
      \cup Clause("static_values",
        /\ Len(out.stat) = Len(statics)
        /\ \A k \in DOMAIN statics :
             out.stat[k] = [p \in 1..c.P |-> StaticVal(c, call, statics[k])])
      \cup Clause("trailing_axes",
        /\ Len(out.vec) = Len(given)
        /\ \A k \in DOMAIN given :
             out.vec[k] = [p \in 1..c.P |->
                [j \in 1..3 |-> call.values[given[k]][p] + 10 * j + p - 1]])

TraceFailing(t) ==
  IF t.outcome # "ok" THEN {"returns"} ELSE
  UNION {CallFails(t.case, t.case.calls[k], t.calls[k]) : k \in DOMAIN t.case.calls}
  \cup Clause("all_calls", Len(t.calls) = Len(t.case.calls))
=============================================================================
