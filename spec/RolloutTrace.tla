----------------------------- MODULE RolloutTrace -----------------------------
(* Recorded losses, gradients and steps of the training of a closure model,    *)
(* with a stand-in for the model and the discretisation (harness/h_C31.py).    *)
EXTENDS TraceBase, DatagenDef

Tol == "1p-17"
Bits == 180
RoundV(u) == Force([i \in DOMAIN u |-> VRound(u[i], Bits)])
Near(a, b, size) == RNear(a, b, RMul(Tol, RAdd(RAbs(b), size)))

(* ---- stand-ins ------------------------------------------------------------ *)
Next1(n, i) == (i % n) + 1
StubC(c, u) == RoundV([i \in DOMAIN u |-> LET v == u[Next1(Len(u), i)] IN
   <<RMul(c.conv[i], RMul(u[i][2], v[1])), RMul(c.conv[i], RMul(u[i][1], v[2]))>>])
StubStep(c, us, ps, f) ==
  LET k == Len(us)
      p == ps[k]
      q == ps[k - 1]
      u == RoundV([i \in DOMAIN f |-> [l \in 1..2 |->
             RAdd(VSum([j \in 1..k |-> RMul(c.past[j], us[j][i][l])]),
                  RAdd(RMul("1/4", f[i][l]), RMul("1/16", RSub(p[i], RMul(l, q[i])))))]])
  IN  [u |-> u, p |-> VRound([i \in DOMAIN p |-> RAdd(RSub(RMul("1/2", p[i]), RMul("1/4", q[i])),
                                                      RMul("1/8", RSub(u[i][1], u[i][2])))], Bits)]
Mass(c, u) == [i \in DOMAIN u |-> VScale(c.mass[i], u[i])]
(* elements: c.el[e] are the (0-based) nodes of element e; a row per element     *)
Rows(c, u) == Force([e \in DOMAIN c.el |->
   [m \in 1..(2 * Len(c.el[e])) |-> u[c.el[e][((m - 1) \div 2) + 1] + 1][((m - 1) % 2) + 1]]])
Scatter(c, n, rows) == Force([i \in 1..n |-> [l \in 1..2 |->
   VSum([o \in DOMAIN c.occ[i] |-> rows[c.occ[i][o][1]][2 * (c.occ[i][o][2] - 1) + l]])]])
(* the model, on rows x: w weighs the positions of the elements; z: noise        *)
Model(w, th, z, x) ==
  LET E == Len(x) IN
  [out |-> Force([e \in 1..E |-> [m \in DOMAIN x[e] |->
      RRound(RAdd(RAdd(RMul(th[1], x[e][m]), RMul(RMul(th[2], w[e]), x[Next1(E, e)][m])), RMul(th[3], z)), Bits)]]),
   q0 |-> RAdd(RMul(th[4], RMul(x[1][1], x[1][1])), RMul(th[1], th[1])),
   path |-> RAdd(RMul(RMul(th[2], th[4]), x[E][1]), "1/2"),
   z |-> <<RSub(x[1][1], th[1]), x[1][2], RMul(x[E][1], th[4])>>]

Perm(c, rows) == IF c.permute THEN Force([e \in DOMAIN rows |-> rows[c.perm[e] + 1]]) ELSE rows
Unperm(c, rows) == IF c.permute
  THEN Force([e \in DOMAIN rows |-> rows[CHOOSE j \in DOMAIN rows : c.perm[j] + 1 = e]]) ELSE rows

(* One window b of the batch: parameters th, force of the first steps by base    *)
RECURSIVE Roll(_, _, _, _, _, _, _)
Roll(c, w, drive, b, th, base, n) ==
  IF n = 0 THEN [us |-> SubSeq(b.u, 1, c.order), ps |-> SubSeq(b.p, 1, c.order), q0 |-> "0", path |-> "0",
                 z |-> <<"0", "0", "0">>]
  ELSE CHOOSE r \in {
    LET k == c.order
        i == n - 1
        last(s) == SubSeq(s, Len(s) - k + 1, Len(s))
        win == last(h.us)
        pwin == last(h.ps)
        x == Perm(c, Rows(c, win[k]))
        m == Model(w, th, c.noise[n], x)
        mf == IF i < c.push THEN Model(w, base, c.noise[n], x) ELSE m
        g == Scatter(c, Len(win[k]), Unperm(c, mf.out))
        cu == ExtrapolateV([j \in 1..k |-> StubC(c, win[j])], k)
        f == Force(VV(LAMBDA s, t : VSub(t, s), cu,
                      Mass(c, VV(LAMBDA s, t : VAdd(s, t), g, Forcing(drive, c.drag, win[k])))))
        s == Force(StubStep(c, win, pwin, f))
    IN  [us |-> Append(h.us, s.u), ps |-> Append(h.ps, s.p),
         q0 |-> RRound(RAdd(h.q0, m.q0), Bits), path |-> RRound(RAdd(h.path, m.path), Bits), z |-> Force(m.z)]
    : h \in {Roll(c, w, drive, b, th, base, n - 1)}} : TRUE

SqDist(a, b) == VSum([i \in DOMAIN a |-> VSum([l \in 1..2 |-> LET d == RSub(a[i][l], b[i][l]) IN RMul(d, d)])])
Mean(s) == RDiv(VSum(s), Len(s))
(* everything about the loss on a batch (a sequence of windows)                  *)
Loss(c, w, drive, batch, th, base, n, pen) ==
  CHOOSE r \in {
    LET mse == Force([s \in 1..n |-> Mean([j \in DOMAIN batch |->
                 RDiv(SqDist(rs[j].us[c.order + s], batch[j].u[c.order + s]), 2)])])
        q0 == Mean([j \in DOMAIN batch |-> rs[j].q0])
        path == Mean([j \in DOMAIN batch |-> rs[j].path])
        kl == RMul(pen, RAdd(q0, path))
    IN  [mse |-> mse, q0 |-> q0, path |-> path, kl |-> kl, loss |-> RAdd(VSum(mse), kl),
         z |-> [v \in 1..3 |-> Mean([j \in DOMAIN batch |-> RAbs(rs[j].z[v])])]]
    : rs \in {Force([j \in DOMAIN batch |-> Roll(c, w, drive, batch[j], th, base, n)])}} : TRUE

(* derivative with respect to parameter a: differences of exact values           *)
H == "1p-40"
Gradient(c, w, drive, batch, n, pen) ==
  Force([a \in DOMAIN c.theta |->
    LET at(h) == Loss(c, w, drive, batch, [c.theta EXCEPT ![a] = RAdd(c.theta[a], h)], c.theta, n, pen).loss
    IN  RDiv(RSub(at(H), at(RNeg(H))), RMul(2, H))])

Weights(n) == [e \in 1..n |-> RDiv(((e * 7) % 5) - 2, 4)]
Numbers(c, got, want, n) ==
  Clause("loss", Near(got.loss, want.loss, 1))
  \cup Clause("divergence", Near(got.kl_q0, want.q0, 1) /\ Near(got.kl_path, want.path, 1) /\ Near(got.kl, want.kl, 1))
  \cup Clause("codes", \A v \in 1..3 : Near(got.z[v], want.z[v], 1))

Arguments(t) == Clause("scheme", \A i \in DOMAIN t.calls :
   /\ t.calls[i].order = t.case.order
   /\ RNear(t.calls[i].dt, t.case.dt, RMul("1p-45", t.case.dt))
   /\ RNear(t.calls[i].alpha, t.case.alpha, "1p-45")
   /\ RNear(RMul(t.calls[i].mu, t.case.reynolds), 1, "1p-45"))
Keys(t) ==
  Clause("fresh_noise", Cardinality({t.keys[i] : i \in DOMAIN t.keys}) = Len(t.keys))
  \cup Clause("mode", \A i \in DOMAIN t.modes : t.modes[i] = t.case.train)

Case(t) == [t.case EXCEPT !.noise = t.noise, !.perm = t.perm]

LossTrace(t) ==
  LET c == Case(t)
      w == Force(Weights(Len(c.el)))
      drive == Force(Drive(c.coords))
      want == Force(Loss(c, w, drive, c.batch, c.theta, c.theta, c.steps, c.penalty))
      grad == IF c.gradient THEN Gradient(c, w, drive, c.batch, c.steps, c.penalty) ELSE <<>>
  IN  Arguments(t) \cup Keys(t) \cup Numbers(c, t, want, c.steps)
      \cup Clause("error_of_every_step",
             Len(t.mse) = c.steps /\ \A s \in DOMAIN t.mse : Near(t.mse[s], want.mse[s], 1))
      \cup Clause("number_of_evaluations", Len(t.keys) = c.steps)
      \cup (IF c.gradient THEN Clause("gradient",
             Len(t.grad) = Len(grad) /\ \A a \in DOMAIN grad : Near(t.grad[a], grad[a], RAdd(1, VMaxAbs(grad)))) ELSE {})

(* one training step on several devices, whose batches are c.batches             *)
StepTrace(t) ==
  LET c == Case(t)
      w == Force(Weights(Len(c.el)))
      drive == Force(Drive(c.coords))
      D == Len(c.batches)
      per == Force([d \in 1..D |-> Loss(c, w, drive, c.batches[d], c.theta, c.theta, c.steps, c.penalty)])
      grads == Force([d \in 1..D |-> Gradient(c, w, drive, c.batches[d], c.steps, c.penalty)])
      grad == [a \in DOMAIN c.theta |-> Mean([d \in 1..D |-> grads[d][a]])]
      mean(f(_)) == Mean([d \in 1..D |-> f(per[d])])
      want == [loss |-> mean(LAMBDA r : r.loss), q0 |-> mean(LAMBDA r : r.q0), path |-> mean(LAMBDA r : r.path),
               kl |-> mean(LAMBDA r : r.kl), z |-> [v \in 1..3 |-> mean(LAMBDA r : r.z[v])]]
      mse == mean(LAMBDA r : Mean(r.mse))
  IN  Arguments(t)
      \cup Clause("mode", \A i \in DOMAIN t.modes : t.modes[i] = c.train)
      \cup UNION {Numbers(c, t.metrics[d], want, c.steps) : d \in 1..D}
      \cup Clause("error", \A d \in 1..D : Near(t.metrics[d].mse, mse, 1))
      \cup (IF ~c.train THEN {} ELSE
            Clause("schedules", \A d \in 1..D : Near(t.metrics[d].rate, c.rate, 0) /\ Near(t.metrics[d].penalty, c.penalty, 0))
            \cup Clause("parameters", \A d \in 1..D : \A a \in DOMAIN grad :
                   Near(t.params[d][a], RSub(c.theta[a], grad[a]), RAdd(1, VMaxAbs(grad))))
            \cup Clause("counter", \A d \in 1..D : t.steps[d] = c.at + 1))
      \cup (IF c.train THEN {} ELSE
            LET m == [s \in 1..c.steps |-> mean(LAMBDA r : r.mse[s])]
            IN  Clause("error_at_times", \A d \in 1..D : \A j \in DOMAIN c.times :
                  c.times[j] <= c.steps => Near(t.metrics[d].at[j], m[c.times[j]], 1))
                \cup Clause("error_of_the_first", c.steps >= 8 =>
                       \A d \in 1..D : Near(t.metrics[d].first, Mean(SubSeq(m, 1, 8)), 1)))

(* keys of the noise and of dropout: new ones for every step of every rollout   *)
KeysTrace(t) ==
  LET n == Len(t.key_sets)
      all == [i \in 1..n |-> {t.key_sets[i][j] : j \in DOMAIN t.key_sets[i]}]
  IN  Clause("fresh_noise", \A i \in 1..n : Cardinality(all[i]) = t.case.steps * (IF t.case.train THEN 2 ELSE 1))
      \cup Clause("new_noise_every_step", \A i, j \in 1..n : i # j => all[i] \cap all[j] = {})

TraceFailing(t) ==
  IF t.outcome # "ok" THEN {"returns"}
  ELSE IF t.case.kind = "keys" THEN KeysTrace(t)
  ELSE IF t.case.kind = "loss" THEN LossTrace(t) ELSE StepTrace(t)
=============================================================================
