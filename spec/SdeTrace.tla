------------------------------- MODULE SdeTrace -------------------------------
(* Recorded sdeint: PROP = C24 the path, C25 its sensitivities.              *)
EXTENDS TraceBase, SdeDef

Prop == IOEnv.PROP
TraceFailing(t) ==
  LET c == t.case IN
  IF t.outcome # "ok" THEN {"returns"}
  ELSE IF c.kind = "path" THEN
    Clause("shape_and_type", t.shape = <<c.n>> /\ t.dtype = c.dtype)
    \cup Clause("standard", /\ RNear(VDot(t.dw, t.dw), 1, "1/4")
                            /\ RLe(RAbs(VSum(t.dw)), 6) /\ RLe(VMaxAbs(t.dw), RDiv(6, c.root)))
    \cup Clause("depends_on_the_key_alone", t.same /\ t.differs)
  ELSE IF c.kind = "long" THEN       \* y' = a + noise: no increment is lost
    LET segs == Len(c.ts) - 1
        per == c.n \div segs
        Sum(k) == VSum([i \in 1..k |-> t.dw[i]])
    IN  Clause("every_increment_counts", Len(t.dw) = c.n /\ Len(t.ys) = segs /\
          \A s \in 1..segs : RNear(t.ys[s][1], RAdd(RDiv(Sum(s * per), 1024),
                                 RMul(c.a, RSub(c.ts[s + 1], c.ts[1]))), "1p-12"))
  ELSE
  LET sys == [D |-> c.D, G |-> c.G]
      th == c.th
      n == Len(c.dw)
      segs == Len(c.ts) - 1
      per == n \div segs
      Seg(k) == ((k - 1) \div per) + 1             \* of increment k
      Dt(s) == RDiv(RSub(c.ts[s + 1], c.ts[s]), per)
      Time(k) == LET s == Seg(k) IN RAdd(c.ts[s], RMul((k - 1) % per, Dt(s)))
      RECURSIVE Run(_, _)
      Run(y, k) == IF k > n THEN <<>>
                   ELSE LET x == Forward(sys, y, Time(k), Dt(Seg(k)), c.dw[k], th)
                        IN  <<x>> \o Run(x, k + 1)
      path == Force(Run(c.y0, 1))
      ends == [s \in 1..segs |-> path[s * per]]
      top == RAdd(1, VMaxAbs([k \in DOMAIN path |-> VMaxAbs(path[k])]))
      near(a, b, size) == VNear(a, b, RMul(c.eps, size))
  IN
  Clause("one_state_per_output_time", Len(t.ys) = segs)
  \cup (IF Len(t.ys) # segs THEN {} ELSE
     IF Prop = "C24" THEN
       Clause("euler_heun", \A s \in 1..segs : near(t.ys[s], ends[s], top))
     ELSE
       LET RECURSIVE Sens(_, _)
           Sens(z, k) ==
             IF k = 0 THEN z
             ELSE LET s == Seg(k)
                      w == IF k = s * per
                           THEN [z EXCEPT !.y = ends[s], !.a = Force(VAdd(@, t.cot[s]))] ELSE z
                  IN  Sens(Backward(sys, w, RAdd(Time(k), Dt(s)), Dt(s), c.dw[k], th), k - 1)
           z == Sens([y |-> ends[segs], a |-> [j \in DOMAIN c.y0 |-> "0"], p |-> [j \in DOMAIN th |-> "0"]], n)
           size == RMul(top, RAdd(1, RAdd(VMaxAbs(z.a), VMaxAbs(z.p))))
       IN  Clause("sensitivity_to_the_initial_state", near(t.ybar, z.a, size))
           \cup Clause("sensitivity_to_the_parameters", near(t.thbar, z.p, size)))
=============================================================================
