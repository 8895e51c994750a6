---------------------------- MODULE SemiTracedTrace ----------------------------
EXTENDS TraceBase, BigRat

S == INSTANCE SemiTraced WITH Sizes <- {1}, MaxSteps <- 1, Emit <- FALSE, n <- 1,
       prog <- <<>>, local <- <<>>, global <- <<>>

RECURSIVE Run(_, _, _, _, _)
Run(prog, k, st, i, n) ==
  IF k > Len(prog) \/ st = S!Undef THEN st
  ELSE Run(prog, k + 1, S!Exec(prog[k], st, i, n), i, n)

(* the same over fractions (exact in floating point)                       *)
RBool(b) == IF b THEN "1" ELSE "0"
RApply(op, a, b) ==
  CASE op = "add" -> RAdd(a, b)
    [] op = "sub" -> RSub(a, b)
    [] op = "mul" -> RMul(a, b)
    [] op = "truediv" -> RDiv(a, b)
    [] op = "lt" -> RBool(RLt(a, b))
    [] op = "le" -> RBool(RLe(a, b))
    [] op = "eq" -> RBool(REq(a, b))
    [] op = "ne" -> RBool(~REq(a, b))
    [] op = "gt" -> RBool(RLt(b, a))
    [] op = "ge" -> RBool(RLe(b, a))
RExec(ins, st, i, n) ==
  LET k == Len(st)
      drop(m) == SubSeq(st, 1, k - m)
  IN CASE ins.op = "index" -> Append(st, i)
       [] ins.op = "size" -> Append(st, n)
       [] ins.op = "const" -> Append(st, ins.c)
       [] ins.op = "where" -> Append(drop(3), IF ~REq(st[k-2], 0) THEN st[k-1] ELSE st[k])
       [] ins.op = "right" -> Append(drop(1), RApply(ins.f, st[k], ins.c))
       [] ins.op = "left" -> Append(drop(1), RApply(ins.f, ins.c, st[k]))
       [] OTHER -> Append(drop(2), RApply(ins.op, st[k-1], st[k]))
RECURSIVE RRun(_, _, _, _, _)
RRun(prog, k, st, i, n) ==
  IF k > Len(prog) THEN st ELSE RRun(prog, k + 1, RExec(prog[k], st, i, n), i, n)

TraceFailing(t) ==
  IF t.outcome # "ok" THEN {"returns"} ELSE
  LET n == t.case.n
      real == "real" \in DOMAIN t.case /\ t.case.real
      same(a, b) == IF real THEN REq(a, b) ELSE a = b
      want(i) == IF real THEN RRun(t.case.prog, 1, <<>>, i - 1, n)[1] ELSE
                 Run(t.case.prog, 1, <<>>, i - 1, n)[1]
  IN  Clause("global_view", /\ Len(t.global) = n
                            /\ \A i \in 1..n : same(t.global[i], want(i)))
      \cup Clause("local_view", /\ Len(t.local) = n
                                /\ \A i \in 1..n : same(t.local[i], want(i)))
      \cup Clause("global_is_concrete", t.concrete)
=============================================================================
