----------------------------- MODULE StokesTrace -----------------------------
(* Recorded StokesSEM.  C22: each operator; C23: steps of stokes_one_step.   *)
EXTENDS TraceBase, StokesDef

Prop == IOEnv.PROP
Tol == "1p-34"
NearS(a, b, size) == VNear(a, b, RMul(Tol, RAdd(size, VMaxAbs(b))))
NearV(a, b, size) ==
  /\ Len(a) = Len(b)
  /\ \A i \in DOMAIN a : VNear(a[i], b[i], RMul(Tol, RAdd(size, MaxV(b))))

Operators(t) ==
  LET S == Space(t.grid)
      c == t.case
      u == t.u
      p == t.p
      one == "1"
      dtp == OpDt(S, p)
  IN
  Clause("mass", NearV(t.B, OpB(S, u), one))
  \cup Clause("mass_diagonal", NearV(t.diag, [i \in DOMAIN u |-> [l \in 1..S.d |-> MassDiag(S)[i]]], one))
  \cup Clause("inverse_mass", NearV(t.Bi, OpBi(S, u), one))
  \cup Clause("stiffness", NearV(t.A, OpA(S, u), one))
  \cup Clause("convection", NearV(t.C, OpC(S, u), one))
  \cup Clause("divergence", NearS(t.D, OpD(S, u), one))
  \cup Clause("pressure_gradient", NearV(t.Dt, dtp, one))
  \cup Clause("pressure_mass", NearS(t.PB, OpPB(S, p), one))
  \cup Clause("scaled_inverse_mass", NearV(t.Q, OpQ(S, u, t.dt, c.k), one))
  \cup Clause("pressure_operator", NearS(t.E, OpE(S, p, t.dt, c.k), one))
  \cup Clause("filter", NearV(t.filter, OpFilter(S, u, t.alpha), one))
  \cup Clause("default_filter", NearV(t.filter05, OpFilter(S, u, "1/20"), one))
  \cup (IF S.d = 1 THEN {} ELSE Clause("vorticity", NearS(t.vorticity, OpVorticity(S, u), MaxV(u))))
  \cup Clause("free_nodes", t.interior = S.free)

Steps(t) ==
  LET S == Space(t.grid)
      c == t.case
      k == c.k
      dt == t.dt
      mu == t.mu
      n == Len(t.steps)
      us(i) == IF i <= 0 THEN t.u0[k + i] ELSE t.steps[i].u
      np == Len(t.p0)
      np1 == Len(t.p0[1])
      ps(i) == IF i <= 0 THEN t.p0[np + i] ELSE t.steps[i].p
      hist(i) == [j \in 1..k |-> us(i - 1 - k + j)]
      zeroV == Force([a \in DOMAIN t.u0[1] |-> [l \in 1..S.d |-> "0"]])
      RECURSIVE Acc(_, _, _)
      Acc(h, b, j) == IF j = 0 THEN zeroV ELSE VAddV(Acc(h, b, j - 1), VScaleV(b[j], h[j]))
      Check(i) ==
        LET pext == Force(VSub(VScale(2, ps(i - 1)), ps(i - 2)))
            dp == Force(VSub(ps(i), pext))
            corr == OpQ(S, OpDt(S, dp), dt, k)
            star == VSubV(us(i), corr)                 \* filtered tentative velocity
            raw == IF REq(t.alpha, 0) THEN star ELSE Unfilter(S, star, t.alpha)
            ub == IF c.lift THEN t.ub ELSE zeroV
            rhs == VSubV(VAddV(t.steps[i].f, OpDt(S, pext)),
                         OpB(S, VScaleV(RDiv(1, dt), Acc(hist(i), Bdf(k), k))))
            b == VSubV(rhs, OpH(S, ub, mu, dt, k))
            r == VSubV(rhs, OpH(S, raw, mu, dt, k))
            gam == DotV(r, ExchangeV(S, r))
            lim == RMax(RMul(RMul(t.tol, t.tol), DotV(b, b)), RMul(t.atol, t.atol))
            size == RAdd(DotV(b, b), DotV(rhs, rhs))
            dv == OpD(S, us(i))
            ds == OpD(S, star)
            dlim == RMax(RMul(RMul(t.tol, t.tol), VDot(ds, ds)), RMul(t.atol, t.atol))
            noise == RMul("1p-72", RMul(RAdd(1, RPow(MaxV(us(i)), 2)), 100))
            top == RAdd(1, MaxV(us(i)))
        IN  Clause("momentum_equation", RLe(gam, RAdd(RMul(lim, "17/16"), RMul(size, "1p-66"))))
            \cup Clause("free_of_divergence", RLe(VDot(dv, dv), RAdd(RMul(dlim, "17/16"), noise)))
            \cup Clause("prescribed_velocity",
                   \A a \in DOMAIN ub : S.free[a] = 0 =>
                      \A l \in 1..S.d : RNear(raw[a][l], ub[a][l], RMul(Tol, top)))
            \cup Clause("images_agree",
                   \A a \in DOMAIN ub : \A b2 \in DOMAIN S.vcls[a] : \A l \in 1..S.d :
                      RNear(us(i)[a][l], us(i)[S.vcls[a][b2]][l], RMul("1p-26", top)))
            \cup Clause("reported_residual",
                   /\ RNear(t.steps[i].ustar_residual, gam, RAdd(RMul(lim, "1/8"), RMul(size, "1p-66")))
                   /\ RLe(t.steps[i].ustar_residual, lim) /\ RLe(t.steps[i].dp_residual, RMul(dlim, "17/16")))
            \cup Clause("stops_when_solved",   \* a step per unknown at the most, but for rounding
                   /\ t.steps[i].iterations[1] <= 3 * S.d * Len(us(i)) + 10
                   /\ t.steps[i].iterations[2] <= 3 * np1 + 10)
  IN  UNION {Check(i) : i \in 1..n}

(* the step is affine, so its differences are its derivative; the           *)
(* derivative applied backwards is its transpose                            *)
Derivative(t) ==
  LET big == RAdd(1, RAdd(VMaxAbs(t.y), VMaxAbs(t.jv)))
      a == VDot(t.w, t.jv)
      b == VDot(t.wj, t.v)
  IN  Clause("forward_derivative", VNear(t.jv, VSub(t.y2, t.y), RMul("1p-24", big)))
      \cup Clause("backward_derivative",
             RNear(a, b, RMul("1p-24", RAdd(1, RMul(Len(t.w), RMul(VMaxAbs(t.w), VMaxAbs(t.jv)))))))

TraceFailing(t) ==
  IF t.case.kind = "refused" THEN Clause("higher_order_premesh_is_refused", t.outcome = "ok" /\ t.refused)
  ELSE IF t.outcome # "ok" THEN {"returns"}
  ELSE IF t.case.kind = "derivative" THEN Derivative(t)
  ELSE IF Prop = "C22" THEN Operators(t) ELSE Steps(t)
=============================================================================
