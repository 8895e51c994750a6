--------------------------- MODULE KolmogorovTrace ----------------------------
(* Recorded training on shear flows c.data (U, V, a, b of every snapshot).       *)
EXTENDS TraceBase, KolmogorovDef

Pi == "31415926535897932384626433832795028841971693993751/10000000000000000000000000000000000000000000000000"
RECURSIVE Series(_, _, _, _)
Series(x2, term, n, top) ==
  IF n > top THEN "0"
  ELSE CHOOSE s \in {RAdd(term, Series(x2, tt, n + 2, top)) :
                       tt \in {RRound(RNeg(RDiv(RMul(term, x2), (n + 1) * (n + 2))), 120)}} : TRUE
Wave == RRound(RMul(8, Pi), 120)
RSin(x) == RRound(Series(RRound(RMul(x, x), 120), x, 1, 101), 60)
RCos(x) == RRound(Series(RRound(RMul(x, x), 120), "1", 0, 100), 60)

Pars(c) == [order |-> c.order, dt |-> c.dt, nu |-> RDiv(1, c.reynolds), drag |-> c.drag, w |-> Wave]
State(c, k) == LET v == c.data[k + 1] IN [U |-> v[1], V |-> v[2], a |-> v[3], b |-> v[4]]
(* mean squares per step of the window that starts at snapshot i                *)
Errors(c, gram, i, n) ==
  CHOOSE r \in {
    Force([k \in 1..n |->
      CHOOSE e \in {
        LET d == [m \in Modes |-> RSub(h[c.order + k][m], State(c, i + (c.order + k - 1) * c.step)[m])]
            v == <<d.U, d.a, d.b>>
        IN  RDiv(RAdd(VDot(v, MatVec(gram, v)), RMul(gram[1][1], RMul(d.V, d.V))), 2)} : TRUE])
    : h \in {Unroll(Pars(c), [j \in 1..c.order |-> State(c, i + (j - 1) * c.step)], n)}} : TRUE
Mean(v) == RDiv(VSum(v), Len(v))
Expected(c, gram, n) ==     \* the windows start at 0, 1, ... batch - 1
  CHOOSE r \in {Force([k \in 1..n |-> Mean([i \in 1..c.batch |-> e[i][k]])])
                : e \in {Force([i \in 1..c.batch |-> Errors(c, gram, i - 1, n)])}} : TRUE
Close(a, b) == RNear(a, b, RAdd(RMul("1/50", b), "1/20000"))
Exactly(a, b) == RNear(a, b, RMul("1/1000", RAdd("1/1000", RAbs(b))))

(* normalised features of every token against the width of the prior             *)
StartDivergence(c) ==
  IF c.samples = 0 THEN "0" ELSE RDiv(c.tokens * c.features, RMul(2, RMul(c.scale, c.scale)))

RunFailing(t, c) ==
  LET ys == [i \in DOMAIN t.coords |-> RMul(Wave, t.coords[i][2])]
      s == Force([i \in DOMAIN ys |-> RSin(RRound(ys[i], 120))])
      k == Force([i \in DOMAIN ys |-> RCos(RRound(ys[i], 120))])
      one == [i \in DOMAIN ys |-> "1"]
      gram == Force([i \in 1..3 |-> [j \in 1..3 |-> VDot(<<one, s, k>>[i], <<one, s, k>>[j])]])
      N == c.runs[Len(c.runs)]
      logs == [i \in 1..N |-> CHOOSE l \in {t.logs[j] : j \in DOMAIN t.logs} : l.step = i]
  IN CHOOSE F \in {
    Clause("reports", /\ [i \in DOMAIN t.logs |-> t.logs[i].step] = [i \in 1..N |-> i]
                      /\ [i \in DOMAIN t.evals |-> t.evals[i].step] = [i \in 1..(N \div c.evalevery) |-> i * c.evalevery]
                      /\ t.final = N /\ t.finite)
    \cup (IF {t.logs[i].step : i \in DOMAIN t.logs} # 1..N THEN {} ELSE
      (* nothing learnt in the first two steps (the first rate is 0)              *)
      UNION {Clause("training_error", Close(logs[i].mse, Mean(train)))
             \cup Clause("training_loss", Exactly(logs[i].loss, RAdd(RMul(c.steps, logs[i].mse), logs[i].kl)))
             \cup Clause("divergence", /\ Exactly(logs[i].kl_q0, RMul(c.steps, StartDivergence(c)))
                                       /\ RNear(logs[i].kl_path, 0, "1/1000000")
                                       /\ Exactly(logs[i].kl, RMul(logs[i].penalty, logs[i].kl_q0)))
             : i \in 1..2}
      \cup Clause("training_helps", c.descent => RLt(logs[N].mse, RMul("9999/10000", logs[2].mse))))
    \cup UNION {Clause("evaluation_error",
                  LET l == t.evals[i] IN
                  /\ Close(l.mse, Mean(eval)) /\ Close(l.first, Mean(SubSeq(eval, 1, 8)))
                     /\ Close(l.at8, eval[8])
                     /\ Exactly(l.kl_q0, RMul(c.evalsteps, StartDivergence(c))))
                : i \in DOMAIN t.evals}
    : train \in {Expected(c, gram, c.steps)}, eval \in {Expected(c, gram, c.evalsteps)}} : TRUE

DefaultFailing(t, c) ==
  Clause("shape", t.shape = <<c.batch, c.elements, c.channels>>)
  \cup Clause("no_force_before_training", RLt(t.force, "1/50000"))
  \cup Clause("divergence", \A b \in DOMAIN t.kl_q0 :
         /\ Exactly(t.kl_q0[b], StartDivergence(c)) /\ RNear(t.kl_path[b], 0, "1/1000000"))

TraceFailing(t) ==
  IF t.outcome # "ok" THEN {"returns"} ELSE
  IF t.case.kind = "default" THEN DefaultFailing(t, t.case) ELSE RunFailing(t, t.case)
=============================================================================
