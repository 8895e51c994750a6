----------------------------- MODULE TrainerTrace -----------------------------
(***************************************************************************)
(* Recorded runs of the trainer on one directory.  A run records the batches  *)
(* it drew, the metrics it wrote and, afterwards, all checkpoints on disk     *)
(* with their lineage: for every step 1000 * run + batch + 1.                 *)
(***************************************************************************)
EXTENDS TraceBase, InputDef, ScheduleDef, FiniteSetsExt

ToS(s) == {s[i] : i \in DOMAIN s}
Min2(a, b) == IF a < b THEN a ELSE b
Max2(a, b) == IF a < b THEN b ELSE a

(* number of steps of some (dyadic) number of epochs                           *)
RECURSIVE FloorFrom(_, _)
FloorFrom(x, n) == IF RLe(n + 1, x) THEN FloorFrom(x, n + 1) ELSE n
Floor(x) == FloorFrom(x, 0)

PerEpoch(c) == ((IF c.debug THEN 1 ELSE 24) * PerShard(c.len, c.size, c.stride)) \div c.batch
EvalSteps(c) ==
  IF c.eval_batches >= 0 THEN c.eval_batches
  ELSE ((IF c.debug THEN 1 ELSE 4) * PerShard(c.vlen, c.vsize, c.vstride)) \div c.batch
End(c, r) == IF r.num_train_steps > 0 THEN r.num_train_steps ELSE Floor(RMul(r.epochs, PerEpoch(c)))

Lineage(d, k) == IF k = 0 THEN <<>> ELSE (CHOOSE x \in ToS(d) : x.label = k).lineage
Labels(d) == {d[i].label : i \in DOMAIN d}
Latest(d) == IF d = <<>> THEN 0 ELSE Max(Labels(d))
Multiples(m, lo, hi) == IF m = 0 THEN {} ELSE {k \in (lo + 1)..hi : k % m = 0}

RunFailing(t, n) ==
  LET c == t.case
      r == c.runs[n]
      o == t.runs[n]
      disk0 == IF n = 1 THEN <<>> ELSE t.runs[n - 1].disk
      disk == o.disk
      start == Latest(disk0)
      end == End(c, r)
      crash == r.crash # "none"
      steps == IF crash THEN r.at ELSE Max2(0, end - start)
      whole == start + (IF crash /\ r.crash # "ready" THEN steps - 1 ELSE steps)
      last == start + steps
      lineage(k) == SubSeq(Lineage(disk0, start), 1, start)
                    \o [i \in 1..(k - start) |-> 1000 * n + i]
      saveEvery == Floor(RMul(c.save_epochs, PerEpoch(c)))
      evalEvery == Floor(RMul(c.eval_epochs, PerEpoch(c)))
      due(k) == k % saveEvery = 0 \/ k = end
      sched == [epochs |-> r.epochs, warmup |-> c.warmup, zero |-> c.zero,
                transition |-> c.transition, spe |-> PerEpoch(c), penalty |-> c.penalty,
                base |-> RDiv(RMul(c.learning_rate, c.batch), 256)]
      mean(f(_), lo, hi) == RDiv(VSum([i \in 1..(hi - lo) |-> f(lo + i - 1)]), hi - lo)
      near(a, b, s) == RNear(a, b, RMul("1p-18", s))
      since(k) == Max2(start, k - c.log)       \* steps since the last report
      logOk(l) == /\ near(l.loss, mean(LAMBDA s : s, since(l.step), l.step), 1000)
                  /\ near(l.lr, mean(LAMBDA s : LearningRate(sched, s), since(l.step), l.step), sched.base)
                  /\ near(l.kl, mean(LAMBDA s : KLPenalty(sched, s), since(l.step), l.step), sched.penalty)
      K == EvalSteps(c)
      evalOk(i) == LET l == o.evals[i] IN
                   /\ near(l.loss, RAdd(l.step, RMul(100, mean(LAMBDA s : s, K * (i - 1), K * i))), 1000)
                   /\ near(l.kl, KLPenalty(sched, l.step), sched.penalty)
      reported(list, m) ==
        LET got == {list[i].step : i \in DOMAIN list} IN
        /\ Len(list) = Cardinality(got)
        /\ \A i \in 1..(Len(list) - 1) : list[i].step < list[i + 1].step
        /\ Multiples(m, start, whole) \subseteq got
        /\ got \subseteq Multiples(m, start, last)
  IN
  Clause("ends_or_crashes_as_planned", o.crashed = crash /\ o.error = "")
  \cup Clause("batches_are_used_in_order",
     /\ o.batches = [i \in DOMAIN o.batches |-> i - 1]
     /\ Len(o.batches) \in {steps, steps + 1})
  \cup Clause("checkpoints_when_due",
     /\ Labels(disk0) \subseteq Labels(disk)
     /\ {k \in (start + 1)..whole : due(k)} \subseteq Labels(disk)
     /\ Labels(disk) \subseteq Labels(disk0) \cup {k \in (start + 1)..last : due(k)}
     /\ r.crash = "evaluated" => last \notin Labels(disk))
  \cup Clause("checkpoints_hold_every_step_once",
     \A k \in Labels(disk) :
        Lineage(disk, k) = IF k <= start THEN Lineage(disk0, k) ELSE lineage(k))
  \cup Clause("training_metrics", reported(o.logs, c.log) /\ \A i \in DOMAIN o.logs : logOk(o.logs[i]))
  \cup Clause("evaluation_metrics",
     reported(o.evals, evalEvery) /\ \A i \in DOMAIN o.evals : evalOk(i))
  \cup Clause("random_numbers_depend_on_the_step_alone",
     /\ \A i \in DOMAIN o.logs : o.logs[i].key = t.key /\ o.logs[i].distinct
     /\ \A i \in DOMAIN o.evals : o.evals[i].key = t.eval_key /\ o.evals[i].distinct
     /\ t.key # t.eval_key)
  \cup (IF crash \/ o.crashed THEN {} ELSE
     Clause("returns_the_state_of_the_last_step",
        /\ o.final.step = start + steps
        /\ o.final.lineage = IF steps = 0 THEN Lineage(disk0, start) ELSE lineage(end)))

TraceFailing(t) ==
  LET c == t.case IN
  IF c.kind = "refused" THEN Clause("odd_batches_are_refused", t.outcome = "raised")
  ELSE IF t.outcome # "ok" THEN {"returns"}
  ELSE UNION {RunFailing(t, n) : n \in DOMAIN c.runs}
=============================================================================
