----------------------------- MODULE LatentTrace ------------------------------
(* Recorded runs of the network with its stochastic processor.  A path: the     *)
(* evaluations [y, t, dw, ctx, drift, diff] that share their starting point.    *)
EXTENDS TraceBase, LatentDef

Tol == "1/5000"
Within(a, b, tol) == Len(a) = Len(b) /\
  \A m \in {RMul(tol, RAdd(1, VMaxAbs(b)))} : \A i \in DOMAIN b : RNear(a[i], b[i], m)
Close(a, b) == Within(a, b, Tol)
Rows(a, b) == Len(a) = Len(b) /\ \A i \in DOMAIN b : Close(a[i], b[i])
Front(v) == SubSeq(v, 1, Len(v) - 1)
Last(v) == v[Len(v)]

Evaluated(c, p, e) ==
  \A d \in {Dynamics(p, c.layers, c.latent, e.y, e.t, e.dw, e.ctx)} :
    /\ Close(Front(e.drift), Front(d.drift))
    /\ RNear(Last(e.drift), Last(d.drift), RMul("1/500", RAdd(1, RAbs(Last(d.drift)))))
    /\ Close(e.diff, d.diff) /\ RSame(Last(e.diff), 0)

(* the state after k steps, or <<>> where a step is missing                     *)
RECURSIVE After(_, _, _)
After(c, P, k) ==
  IF k = 0 THEN Append(P[1].ctx, "0")
  ELSE CHOOSE r \in {
    IF y = <<>> THEN <<>>
    ELSE CHOOSE w \in {
      IF S = {} THEN <<>>
      ELSE LET s == CHOOSE s \in S : TRUE
           IN  VAdd(VAdd(P[s[1]].y, VScale(RDiv(1, c.steps), P[s[1]].drift)),
                    VScale("1/2", VAdd(P[s[1]].diff, P[s[2]].diff)))
      : S \in {{s \in (DOMAIN P) \X (DOMAIN P) :
                /\ RNear(P[s[1]].t, RDiv(k - 1, c.steps), Tol) /\ RNear(P[s[2]].t, RDiv(k, c.steps), Tol)
                /\ Close(P[s[1]].y, y)
                /\ P[s[1]].dw = P[s[2]].dw
                /\ Close(P[s[2]].y, VAdd(P[s[1]].y, P[s[1]].diff))}}} : TRUE
    : y \in {After(c, P, k - 1)}} : TRUE

Far(c, z, x) == \E i \in DOMAIN x : ~RLe(RAbs(RSub(z[i], x[i])), RMul(7, c.scale))
Mean(v) == RDiv(VSum(v), Len(v))
Sum2(v) == VDot(v, v)

FlowFailing(t, c) ==
  LET zin == [b \in DOMAIN t.zin |-> Flatten(t.zin[b])]
      zout == [b \in DOMAIN t.zout |-> [s \in DOMAIN t.zout[b] |-> Flatten(t.zout[b][s])]]
      BS == (DOMAIN c.x) \X (1..c.samples)
      all == UNION {{<<i, j>> : j \in DOMAIN t.paths[i]} : i \in DOMAIN t.paths}
  IN CHOOSE F \in {
    Clause("every_sample", Len(t.paths) = Len(c.x) * c.samples /\ \A b \in DOMAIN c.x : Len(zout[b]) = c.samples)
    \cup Clause("dynamics", \A a \in all : Evaluated(c, t.latent, t.paths[a[1]][a[2]]))
    \cup Clause("steps", \A i \in DOMAIN ends : ends[i] # <<>>)
    \cup (IF \E i \in DOMAIN ends : ends[i] = <<>> THEN {} ELSE
       CHOOSE G \in {
         (* path of sample s of member b                                        *)
         Clause("result_of_path", \A m \in BS : of[m] # {})
         \cup Clause("own_path", \A m, n \in BS : m # n => of[m] \cap of[n] = {})
         \cup (IF \E m \in BS : of[m] = {} THEN {} ELSE
           UNION {Clause("divergence_of_paths",
              \A k \in {Mean([s \in 1..c.samples |-> Last(ends[CHOOSE i \in of[<<b, s>>] : TRUE])])} :
                RNear(t.aux.kl_path[b], k, RMul("1/500", RAdd(1, RAbs(k))))) : b \in DOMAIN c.x})
         : of \in {Force([m \in BS |-> {i \in DOMAIN ends :
                     /\ Close(zout[m[1]][m[2]], Front(ends[i]))
                     /\ ~Far(c, t.paths[i][1].ctx, zin[m[1]])}])}} : TRUE)
    \cup Clause("noise", \A i \in DOMAIN t.paths : \A e \in DOMAIN t.paths[i] :
           \A j \in DOMAIN t.paths[i][e].dw : RLe(RMul(c.steps, RMul(t.paths[i][e].dw[j], t.paths[i][e].dw[j])), 49))
    \cup Clause("starts_differ", \A i, j \in DOMAIN t.paths : i # j =>
           \A a \in DOMAIN t.paths[i][1].ctx : ~RSame(t.paths[i][1].ctx[a], t.paths[j][1].ctx[a]))
    \cup Clause("paths_differ", \A i, j \in DOMAIN t.paths : i # j =>
           \A e \in DOMAIN t.paths[i] : \A f \in DOMAIN t.paths[j] :
             \A a, b \in DOMAIN t.paths[i][e].dw : ~RSame(t.paths[i][e].dw[a], t.paths[j][f].dw[b]))
    \cup Clause("increments_differ", \A i \in DOMAIN t.paths :
           /\ Cardinality({t.paths[i][e].dw : e \in DOMAIN t.paths[i]}) >= c.steps
           /\ \A e, f \in DOMAIN t.paths[i] : \A a, b \in DOMAIN t.paths[i][e].dw :
                a # b => ~RSame(t.paths[i][e].dw[a], t.paths[i][f].dw[b]))
    \cup UNION {
         Clause("divergence_of_starts", \A k \in {RDiv(Sum2(zin[b]), RMul(2, RMul(c.scale, c.scale)))} :
                  RNear(t.aux.kl_q0[b], k, RMul(Tol, RAdd(1, k))))
         \cup Clause("means", RNear(t.aux.z0_means[b], Mean(zin[b]), RMul(Tol, RAdd(1, VMaxAbs(zin[b]))))
                  /\ RNear(t.aux.z1_means[b], Mean([s \in DOMAIN zout[b] |-> Mean(zout[b][s])]),
                           RMul(Tol, RAdd(1, VMaxAbs([s \in DOMAIN zout[b] |-> VMaxAbs(zout[b][s])])))))
         \cup (CHOOSE H \in {
               Clause("input", Rows(t.zin[b], e.x))
               \cup Clause("output", LET S == t.zout[b]
                    final(x) == Dense(t.params.decoded_patches, x)
                    avg(X) == [i \in DOMAIN X[1] |-> RV(VScale(RDiv(1, Len(X)),
                                 [j \in DOMAIN X[1][1] |-> VSum([s \in DOMAIN X |-> X[s][i][j]])]))]
                  IN Rows(t.y[b], final(IF c.late
                       THEN avg(Force([s \in DOMAIN S |-> Decoded(c, t.params, S[s], e.skips)]))
                       ELSE Decoded(c, t.params, avg(S), e.skips))))
               : e \in {Encoded(c, t.params, c.x[b])}} : TRUE)
         : b \in DOMAIN c.x}
    : ends \in {Force([i \in DOMAIN t.paths |-> After(c, t.paths[i], c.steps)])}} : TRUE

(* many samples: deviations of the start [sample][coordinate] and increments     *)
(* [sample][step][coordinate] are standard normal, and unrelated                 *)
RootLe(s, n, lim) == RLe(RMul(s, s), RMul(n, RMul(lim, lim)))
Standard(v) == RootLe(VSum(v), Len(v), 5) /\ RootLe(RSub(Sum2(v), Len(v)), Len(v) * 2, 6)
NoiseFailing(t, c) ==
  LET zin == Flatten(t.zin[1])
      n == Len(zin)
      S == DOMAIN t.starts
      unit == Force([s \in S |-> [i \in 1..n |-> RDiv(RSub(t.starts[s][i], zin[i]), c.scale)]])
      root == RSqrt(c.steps, 60)
      col(k, i) == [s \in S |-> RMul(root, t.incs[s][k][i])]
  IN  Clause("every_sample", Len(t.starts) = c.samples /\ \A s \in S : Len(t.incs[s]) = c.steps)
      \cup Clause("repeatable", t.same) \cup Clause("depends_on_key", t.other)
      \cup (IF ~(\A s \in S : Len(t.incs[s]) = c.steps) THEN {} ELSE
        Clause("starts_normal", \A i \in 1..n : Standard([s \in S |-> unit[s][i]]))
        \cup Clause("increments_normal", \A k \in 1..c.steps : \A i \in 1..n : Standard(col(k, i)))
        \cup Clause("uncorrelated", \A i, j \in 1..n :
              /\ i # j => RootLe(VDot([s \in S |-> unit[s][i]], [s \in S |-> unit[s][j]]), Cardinality(S), 6)
              /\ \A k \in 1..c.steps :
                   /\ RootLe(VDot([s \in S |-> unit[s][i]], col(k, j)), Cardinality(S), 6)
                   /\ \A l \in 1..c.steps : <<i, k>> # <<j, l>> =>
                        RootLe(VDot(col(k, i), col(l, j)), Cardinality(S), 6)))

TraceFailing(t) ==
  IF t.outcome # "ok" THEN {"returns"} ELSE
  LET c == t.case IN
  CASE c.kind = "flow" ->
         IF Len(t.y) = Len(c.x) /\ \A b \in DOMAIN t.y : Len(t.y[b]) = c.tokens
              /\ \A i \in DOMAIN t.y[b] : Len(t.y[b][i]) = c.channels
         THEN FlowFailing(t, c) ELSE {"shape"}
    [] c.kind = "noise" -> NoiseFailing(t, c)
    [] c.kind = "fresh" ->
         Clause("no_force_before_training", \A b \in DOMAIN t.y : \A i \in DOMAIN t.y[b] :
                   RLt(VMaxAbs(t.y[b][i]), "1/50000"))
         \cup Clause("no_divergence_before_training", \A b \in DOMAIN c.x : RLt(t.aux.kl_path[b], "1/1000000"))
=============================================================================
