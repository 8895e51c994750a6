----------------------------- MODULE DatagenTrace -----------------------------
(* Recorded runs of the data generator.                                       *)
EXTENDS TraceBase, StokesDef, DatagenDef

Tol == "1p-30"
NearV(a, b, tol) == Len(a) = Len(b) /\ \A i \in DOMAIN a : VNear(a[i], b[i], RMul(tol, RAdd(1, VMaxAbs(b[i]))))
NearS(a, b, tol) == VNear(a, b, RMul(tol, RAdd(1, VMaxAbs(b))))
RoundV(u) == Force([i \in DOMAIN u |-> VRound(u[i], 120)])

(* ---- the stand-in for the discretisation (see harness/h_C30.py) ---------- *)
Next1(n, i) == (i % n) + 1
StubC(c, u) == RoundV([i \in DOMAIN u |-> LET v == u[Next1(Len(u), i)] IN
   <<RMul(c.conv[i], RMul(u[i][2], v[1])), RMul(c.conv[i], RMul(u[i][1], v[2]))>>])
StubStep(c, us, ps, f) ==
  LET k == Len(us)
      p == ps[Len(ps)]
      q == ps[Len(ps) - 1]
      u == RoundV([i \in DOMAIN f |-> [l \in 1..2 |->
             RAdd(VSum([j \in 1..k |-> RMul(c.past[j], us[j][i][l])]),
                  RAdd(RMul("1/4", f[i][l]), RMul("1/16", RSub(p[i], RMul(l, q[i])))))]])
  IN  [u |-> u, p |-> VRound([i \in DOMAIN p |-> RAdd(RSub(RMul("1/2", p[i]), RMul("1/4", q[i])),
                                                      RMul("1/8", RSub(u[i][1], u[i][2])))], 120)]
Mass(c, u) == [i \in DOMAIN u |-> VScale(c.mass[i], u[i])]

(* states after 0, 1, ... n steps, on top of the history                      *)
RECURSIVE March(_, _, _, _, _)
March(t, drive, us, ps, n) ==
  IF n = 0 THEN [us |-> us, ps |-> ps] ELSE
  CHOOSE r \in {
    LET c == t.case
        k == c.order
        win == SubSeq(h.us, Len(h.us) - k + 1, Len(h.us))
        pwin == SubSeq(h.ps, Len(h.ps) - k + 1, Len(h.ps))
        cu == ExtrapolateV([j \in 1..k |-> StubC(c, win[j])], k)
        f == Force(VV(LAMBDA a, b : VSub(b, a), cu, Mass(c, Forcing(drive, t.drag, win[k]))))
        s == Force(StubStep(c, win, pwin, f))
    IN  [us |-> Append(h.us, s.u), ps |-> Append(h.ps, s.p)]
    : h \in {March(t, drive, us, ps, n - 1)}} : TRUE

RECURSIVE Sum(_)
Sum(a) == IF a = <<>> THEN 0 ELSE Head(a) + Sum(Tail(a))

Files(t, from, cycles, U(_), P(_)) ==
  LET start(i) == from + Sum(SubSeq(cycles, 1, i - 1))
      name(i) == FileName(t.resolution, t.degree, start(i), start(i) + cycles[i])
      got(i) == SelectSeq(t.files, LAMBDA x : x.name = name(i))
  IN  Clause("one_file_per_cycle",
        /\ Len(t.files) = Cardinality({name(i) : i \in DOMAIN cycles})
        /\ \A i \in DOMAIN cycles : Len(got(i)) = 1)
      \cup UNION {
        IF Len(got(i)) # 1 THEN {} ELSE
        LET x == got(i)[1]
            s == Snaps(start(i), cycles[i])
        IN  Clause("times", /\ Len(x.t) = Len(s)
                            /\ \A j \in DOMAIN s : RNear(x.t[j], Label(t.dt, s[j]), RMul("1p-40", RMul(t.dt, s[j] + 1))))
            \cup Clause("velocities", Len(x.u) = Len(s) /\ \A j \in DOMAIN s : NearV(x.u[j], U(s[j] - from), Tol))
            \cup Clause("pressures", Len(x.p) = Len(s) /\ \A j \in DOMAIN s : NearS(x.p[j], P(s[j] - from), Tol))
        : i \in DOMAIN cycles}

Arguments(t) == Clause("scheme", \A i \in DOMAIN t.calls :
   /\ t.calls[i].order = t.case.order
   /\ RNear(t.calls[i].dt, t.dt, RMul("1p-45", t.dt))
   /\ RNear(RMul(t.calls[i].mu, t.reynolds), 1, "1p-45"))

Stub(t) ==
  LET c == t.case
      k == c.order
      drive == Force(Drive(t.coords))
      m == Force(March(t, drive, t.us, t.ps, Sum(c.cycles)))
      last(h) == SubSeq(h, Len(h) - k + 1, Len(h))
  IN  Arguments(t)
      \cup Files(t, c.start, c.cycles, LAMBDA n : m.us[k + n], LAMBDA n : m.ps[k + n])
      \cup Clause("returned_history",
             /\ Len(t.us_end) = k /\ Len(t.ps_end) = k
             /\ \A j \in 1..k : NearV(t.us_end[j], last(m.us)[j], Tol) /\ NearS(t.ps_end[j], last(m.ps)[j], Tol))

(* run_simulation on the real discretisation: t.calls are the Stokes steps     *)
Real(t) ==
  LET c == t.case
      k == c.order
      S == Space(t.grid)
      drive == Force(Drive(t.grid.vcoords))
      zero == [i \in 1..t.grid.pnodes |-> "0"]
      n == Len(t.calls)
      u(i) == IF i <= 0 THEN t.calls[1].us[k] ELSE t.calls[i].u
      p(i) == IF i <= 0 THEN zero ELSE t.calls[i].p
      conv == Force([i \in 1..(n + k) |-> OpC(S, u(i - k))])      \* of u(1-k .. n)
  IN  IF n # c.length * c.count \/ n = 0 THEN {"number_of_steps"} ELSE
      Arguments(t)
      \cup Clause("initial_velocity",
             NearV(u(0), [i \in DOMAIN t.grid.vcoords |-> InitialVelocity(t.grid.vcoords[i])], "1p-40"))
      \cup Clause("history", \A i \in 1..n : \A j \in 1..k :
             /\ NearV(t.calls[i].us[j], u(i - 1 - k + j), "1p-45")
             /\ NearS(t.calls[i].ps[j], p(i - 1 - k + j), "1p-45"))
      \cup Clause("right_hand_side", \A i \in 1..n :
             LET cu == ExtrapolateV(SubSeq(conv, i, i + k - 1), k)
                 b == OpB(S, Forcing(drive, t.drag, u(i - 1)))
             IN  NearV(t.calls[i].f, VSubV(b, cu), "1p-36"))
      \cup Files(t, 0, [i \in 1..c.count |-> c.length], u, p)

TraceFailing(t) ==
  IF t.outcome # "ok" THEN {"returns"}
  ELSE IF t.case.kind = "stub" THEN Stub(t) ELSE Real(t)
=============================================================================
