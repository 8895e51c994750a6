--------------------------------- MODULE Sde ---------------------------------
(***************************************************************************)
(* Integration forwards, one increment at a time and saving the state at the *)
(* end of each segment, and sensitivities backwards, segment by segment.     *)
(* jac: the derivative of the discrete map, carried along for comparison.    *)
(***************************************************************************)
EXTENDS SdeDef, Json
CONSTANTS Systems, Counts, Segments, Drivers, Emit
VARIABLES sys, n, segs, drv, phase, i, y, saved, jac, z

T(o, c, th, ta, ys, w) == [o |-> o, c |-> c, th |-> th, ta |-> ta, ys |-> ys, w |-> w]
Sys(k) ==
  CASE k = "additive"  -> [D |-> <<T(1, 1, 1, 0, <<0>>, 0)>>, G |-> <<T(1, 1, 2, 0, <<0>>, 1)>>]
    [] k = "geometric" -> [D |-> <<T(1, 1, 1, 0, <<1>>, 0)>>, G |-> <<T(1, 1, 2, 0, <<1>>, 1)>>]
    [] k = "ode"       -> [D |-> <<T(1, 1, 1, 0, <<1>>, 0)>>, G |-> <<>>]
    [] k = "time"      -> [D |-> <<T(1, 1, 1, 2, <<0>>, 0), T(1, -1, 0, 1, <<1>>, 0)>>, G |-> <<T(1, 1, 2, 1, <<0>>, 1)>>]
    [] k = "pair"      -> [D |-> <<T(1, 1, 1, 0, <<0, 1>>, 0), T(2, -1, 1, 0, <<1, 0>>, 0)>>,
                           G |-> <<T(1, "1/2", 2, 0, <<0, 1>>, 1), T(2, 1, 2, 0, <<1, 1>>, 2)>>]
    [] k = "logistic"  -> [D |-> <<T(1, 1, 1, 0, <<1>>, 0), T(1, -1, 1, 0, <<2>>, 0)>>,
                           G |-> <<T(1, "1/2", 2, 0, <<2>>, 1)>>]
Th == <<"1/2", "3/4">>
Y0(k) == IF k = "pair" THEN <<"1", "1/2">> ELSE <<"3/4">>
NoiseDim(k) == IF k = "pair" THEN 2 ELSE 1
(* the path: none, smooth (increments proportional to 1/n), rough (1/sqrt(n))  *)
Inc(k, m) == Force([q \in 1..NoiseDim(sys) |->
   CASE drv = "none" -> "0"
     [] drv = "smooth" -> RDiv(1 + ((k + q) % 2), 2 * n)
     [] OTHER -> RMul(((k * k + q) % 5) - 2, RDiv(1, 8))])
dt == RDiv(1, n)
S == Sys(sys)
(* column j of the derivative of one step, by exact polynomial differentiation *)
Tangent(x, t, dw, col) ==
  LET lin(F, at, tt, v) == [o \in DOMAIN at |-> VSum([k \in DOMAIN F |-> IF F[k].o = o
                            THEN VSum([j \in DOMAIN at |-> RMul(v[j], DValue(F[k], at, tt, dw, Th, j))]) ELSE "0"])]
      s == Eval(S.G, x, t, dw, Th)
      ds == Force(lin(S.G, x, t, col))
      x2 == Force(VAdd(x, s))
      dh == Force(lin(S.G, x2, RAdd(t, dt), Force(VAdd(col, ds))))
  IN  V(VAdd(VAdd(col, VScale(dt, Force(lin(S.D, x, t, col)))), VScale("1/2", VAdd(ds, dh))))
Unit(d, j) == [m \in 1..d |-> IF m = j THEN "1" ELSE "0"]
None == [y |-> <<>>, a |-> <<>>, p |-> <<>>]
Ones(d) == [m \in 1..d |-> "1"]

Init == /\ sys \in Systems /\ n \in Counts /\ segs \in Segments /\ drv \in Drivers
        /\ n % segs = 0
        /\ phase = "forward" /\ i = 0 /\ y = Y0(sys) /\ saved = <<>>
        /\ jac = [j \in DOMAIN Y0(sys) |-> Unit(Len(Y0(sys)), j)] /\ z = None
Go == /\ phase = "forward" /\ i < n
      /\ i' = i + 1
      /\ y' = Forward(S, y, RMul(i, dt), dt, Inc(i, 0), Th)
      /\ jac' = [j \in DOMAIN jac |-> Tangent(y, RMul(i, dt), Inc(i, 0), jac[j])]
      /\ saved' = IF (i + 1) % (n \div segs) = 0 THEN Append(saved, y') ELSE saved
      /\ UNCHANGED <<sys, n, segs, drv, phase, z>>
Turn == /\ phase = "forward" /\ i = n
        /\ phase' = "backward"
        /\ z' = [y |-> y, a |-> Ones(Len(y)), p |-> <<"0", "0">>]
        /\ UNCHANGED <<sys, n, segs, drv, i, y, saved, jac>>
(* a segment starts from the state saved at its end                         *)
Back == /\ phase = "backward" /\ i > 0
        /\ i' = i - 1
        /\ LET w == IF i % (n \div segs) = 0 THEN [z EXCEPT !.y = saved[i \div (n \div segs)]] ELSE z
           IN  z' = Backward(S, w, RMul(i, dt), dt, Inc(i - 1, 0), Th)
        /\ UNCHANGED <<sys, n, segs, drv, phase, y, saved, jac>>
Next == Go \/ Turn \/ Back
Spec == Init /\ [][Next]_<<sys, n, segs, drv, phase, i, y, saved, jac, z>>

Tiny == "1p-100"
Over == phase = "backward" /\ i = 0
RECURSIVE Path(_, _)
Path(k, q) == IF k = 0 THEN "0" ELSE RAdd(Path(k - 1, q), Inc(k - 1, 0)[q])
RECURSIVE Growth(_)
Growth(k) == IF k = 0 THEN "1"
             ELSE LET s == RMul(Th[2], Inc(k - 1, 0)[1]) IN
                  RMul(Growth(k - 1), RAdd(RAdd(1, RMul(dt, Th[1])), RAdd(s, RDiv(RMul(s, s), 2))))
(* what is known in closed form                                             *)
ClosedForms ==
  /\ (sys = "additive" /\ phase = "forward") =>
        RNear(y[1], RAdd(Y0(sys)[1], RAdd(RMul(RMul(i, dt), Th[1]), RMul(Th[2], Path(i, 1)))), Tiny)
  /\ (sys = "geometric" /\ phase = "forward") => RNear(y[1], RMul(Y0(sys)[1], Growth(i)), Tiny)
  /\ (sys = "ode" /\ phase = "forward") =>
        RNear(y[1], RMul(Y0(sys)[1], RPow(RAdd(1, RMul(dt, Th[1])), i)), Tiny)
(* linear equations: the adjoint is the derivative of the discrete solution   *)
AdjointOfLinear == (Over /\ sys \in {"additive", "geometric", "ode"}) => RNear(z.a[1], jac[1][1], Tiny)
(* any equation: it tends to the derivative of the discrete solution          *)
AdjointNear == (Over /\ drv # "rough") =>
  \A j \in DOMAIN jac : RNear(z.a[j], VSum(jac[j]), RDiv(4, n))
Retraced == (Over /\ drv # "rough") => VNear(z.y, Y0(sys), RDiv(4, n))
Additive == (Over /\ sys = "additive") => VNear(z.y, Y0(sys), Tiny)
Saved == phase = "forward" => Len(saved) = i \div (n \div segs)
Inv == /\ ClosedForms /\ AdjointOfLinear /\ AdjointNear /\ Retraced /\ Additive /\ Saved
       /\ (Emit /\ Over => PrintT("CASE " \o ToJson([sys |-> sys, n |-> n, segs |-> segs, drv |-> drv,
             D |-> S.D, G |-> S.G, y0 |-> Y0(sys), th |-> Th, dw |-> [k \in 1..n |-> [q \in 1..NoiseDim(sys) |-> RStr(Inc(k - 1, 0)[q])]]])))
=============================================================================
