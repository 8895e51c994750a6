----------------------------- MODULE StokesStep -----------------------------
(***************************************************************************)
(* The fractional step method as a state machine, on small grids, exactly.   *)
(* One step: predict (conjugate gradients for H v = b), filter, project     *)
(* (conjugate gradients for E dp = -D v), correct.  A transition is one     *)
(* iteration or one change of phase.                                         *)
(***************************************************************************)
EXTENDS StokesDef, Json
CONSTANTS Grids, Orders, Steps, Starts, Alphas, Emit
VARIABLES cfg, phase, n, us, ps, star, cg

(* grids of a x b elements of degree 2, sheared                             *)
Shape(i) == CASE i = 1 -> [a |-> 2, b |-> 2, per |-> FALSE, open |-> FALSE]
              [] i = 2 -> [a |-> 2, b |-> 1, per |-> TRUE,  open |-> FALSE]
              [] i = 3 -> [a |-> 2, b |-> 1, per |-> FALSE, open |-> TRUE]
              [] i = 4 -> [a |-> 1, b |-> 2, per |-> FALSE, open |-> TRUE]
TinyGrid(i) ==
  LET s == Shape(i)
      nx == 2 * s.a + 1
      ny == 2 * s.b + 1
      id(x, y) == x * ny + y                      \* 0-based
      X(j) == j \div ny
      Y(j) == j % ny
      Edge(j) == Y(j) \in {0, ny - 1} \/ (~s.per /\ X(j) = 0)
                 \/ (~s.per /\ ~s.open /\ X(j) = nx - 1)
      edges == {j \in 0..(nx * ny - 1) : Edge(j)}
  IN  [d |-> 2, xs |-> <<-1, 0, 1>>, ws |-> <<"1/3", "4/3", "1/3">>,
       os |-> <<-1, 0, 1>>, ow |-> <<"1/3", "4/3", "1/3">>, ps |-> <<0>>, low |-> <<-1, 1>>,
       vel |-> [e \in 1..(s.a * s.b) |-> [k \in 1..9 |->
          id(2 * ((e - 1) \div s.b) + Multi(k - 1, 2, 3)[1], 2 * ((e - 1) % s.b) + Multi(k - 1, 2, 3)[2])]],
       pel |-> [e \in 1..(s.a * s.b) |-> <<e - 1>>], pnodes |-> s.a * s.b,
       vcoords |-> [j \in 1..(nx * ny) |-> <<RStr(RDiv(X(j - 1), 2)),
                       RStr(RAdd(RDiv(Y(j - 1), 2), IF s.per THEN 0 ELSE RDiv(X(j - 1), 4)))>>],
       vclass |-> [j \in 1..(nx * ny) |-> IF s.per /\ X(j - 1) = nx - 1 THEN Y(j - 1) ELSE j - 1],
       pclass |-> [j \in 1..(s.a * s.b) |-> j - 1],
       fixed |-> SelectSeq([j \in 1..(nx * ny) |-> j - 1], LAMBDA j : j \in edges)]
AllGrids == Force([i \in Grids |-> TinyGrid(i)])
Spaces == Force([i \in Grids |-> Space(AllGrids[i])])

S == Spaces[cfg.grid]
G == AllGrids[cfg.grid]
Nodes == 1..Len(G.vcoords)
ZeroV == Force([i \in Nodes |-> <<"0", "0">>])
ZeroP == Force([i \in 1..G.pnodes |-> "0"])
Dt0 == "1/4"
Mu == "1/2"
(* fields: rotation (steady), arbitrary numbers consistent on images         *)
Rotation(g) == Force([i \in DOMAIN g.vcoords |-> <<RNeg(g.vcoords[i][2]), g.vcoords[i][1]>>])
Some(g, m) == Force([i \in DOMAIN g.vcoords |-> [l \in 1..2 |->
                 RStr(RDiv((((g.vclass[i] + m) * (g.vclass[i] + l + 3)) % 7) - 3, 2))]])
Field(g, c, m) == CASE c = "zero" -> Force([i \in DOMAIN g.vcoords |-> <<"0", "0">>])
                    [] c = "steady" -> Rotation(g)
                    [] OTHER -> Some(g, m)
Lift == IF cfg.start = "steady" THEN Rotation(G) ELSE ZeroV
Force1 == IF cfg.start = "some" THEN Mask(S, Some(G, n + 5)) ELSE ZeroV

Pext == Force(VSub(VScale(2, ps[2]), ps[1]))
RECURSIVE Hist(_, _, _)
Hist(h, b, j) == IF j = 0 THEN ZeroV ELSE VAddV(Hist(h, b, j - 1), VScaleV(b[j], h[j]))
Rhs == VSubV(VSubV(VAddV(Force1, OpDt(S, Pext)),
                   OpB(S, VScaleV(RDiv(1, Dt0), Hist(us, Bdf(cfg.k), cfg.k)))),
             OpH(S, Lift, Mu, Dt0, cfg.k))
RoundV(u) == Force([i \in DOMAIN u |-> VRound(u[i], 160)])
None == [x |-> <<>>, r |-> <<>>, p |-> <<>>, gamma |-> "0", k |-> 0]
Small == "1p-90"

Init ==
  \E g \in Grids, k \in Orders, c \in Starts, a \in Alphas :
    /\ (c = "steady" => g = 1)
    /\ cfg = [grid |-> g, k |-> k, start |-> c, alpha |-> IF a = 0 THEN "0" ELSE "1/20"]
    /\ phase = "start"
    /\ n = 0
    /\ us = [m \in 1..k |-> Field(AllGrids[g], c, m)]
    /\ ps = [m \in 1..2 |-> IF c = "some" THEN [i \in 1..AllGrids[g].pnodes |-> RStr(RDiv((i * m) % 5, 2))]
                             ELSE [i \in 1..AllGrids[g].pnodes |-> "0"]]
    /\ star = [raw |-> <<>>, u |-> <<>>]
    /\ cg = None

(* \E x \in {e} binds x to the value of e (TLC would evaluate a LET again)    *)
Begin ==
  /\ phase = "start" /\ n < Steps
  /\ phase' = "predict"
  /\ \E r \in {Rhs} : \E z \in {ExchangeV(S, r)} :
       cg' = [x |-> ZeroV, r |-> r, p |-> z, gamma |-> DotV(r, z), k |-> 0]
  /\ UNCHANGED <<cfg, n, us, ps, star>>
Predict ==
  /\ phase = "predict" /\ RLt(Small, cg.gamma)
  /\ \E T \in {S} : \E pp \in {cg.p} : \E q \in {OpH(T, pp, Mu, Dt0, cfg.k)} :
     \E a \in {RDiv(cg.gamma, DotV(cg.p, q))} :
     \E r \in {RoundV(VSubV(cg.r, VScaleV(a, q)))} :
     \E z \in {ExchangeV(T, r)} :
     \E g \in {RRound(DotV(r, z), 160)} :
        cg' = [x |-> RoundV(VAddV(cg.x, VScaleV(a, cg.p))), r |-> r,
               p |-> RoundV(VAddV(z, VScaleV(RDiv(g, cg.gamma), cg.p))), gamma |-> g, k |-> cg.k + 1]
  /\ UNCHANGED <<cfg, phase, n, us, ps, star>>
Filter ==
  /\ phase = "predict" /\ RLe(cg.gamma, Small)
  /\ phase' = "project"
  /\ \E raw \in {VAddV(cg.x, Lift)} :
     \E u \in {RoundV(OpFilter(S, raw, cfg.alpha))} :
     \E r \in {Force(VScale(-1, OpD(S, u)))} :
        /\ star' = [raw |-> raw, u |-> u]
        /\ cg' = [x |-> ZeroP, r |-> r, p |-> r, gamma |-> VDot(r, r), k |-> 0]
  /\ UNCHANGED <<cfg, n, us, ps>>
Project1 ==
  /\ phase = "project" /\ RLt(Small, cg.gamma)
  /\ \E q \in {OpE(S, cg.p, Dt0, cfg.k)} :
     \E a \in {RDiv(cg.gamma, VDot(cg.p, q))} :
     \E r \in {Force(VRound(VSub(cg.r, VScale(a, q)), 160))} :
     \E g \in {RRound(VDot(r, r), 160)} :
        cg' = [x |-> Force(VRound(VAdd(cg.x, VScale(a, cg.p)), 160)), r |-> r,
               p |-> Force(VRound(VAdd(r, VScale(RDiv(g, cg.gamma), cg.p)), 160)),
               gamma |-> g, k |-> cg.k + 1]
  /\ UNCHANGED <<cfg, phase, n, us, ps, star>>
Correct ==
  /\ phase = "project" /\ RLe(cg.gamma, Small)
  /\ phase' = "start"
  /\ n' = n + 1
  /\ us' = Append(Tail(us), RoundV(VAddV(star.u, OpQ(S, OpDt(S, cg.x), Dt0, cfg.k))))
  /\ ps' = <<ps[2], Force(VAdd(Pext, cg.x))>>
  /\ cg' = None
  /\ UNCHANGED <<cfg, star>>
Next == Begin \/ Predict \/ Filter \/ Project1 \/ Correct
vars == <<cfg, phase, n, us, ps, star, cg>>
Spec == Init /\ [][Next]_vars

U == us[cfg.k]
Nil(v) == RLe(MaxV(v), "1p-36")
Done == phase = "start" /\ n > 0
DivergenceFree == Done => RLe(VMaxAbs(OpD(S, U)), "1p-36")
Boundary == Done => \A u \in {U}, lift \in {Lift}, T \in {S} :
               \A i \in Nodes : T.free[i] = 0 => VNear(u[i], lift[i], "1p-36")
Images == Done => \A u \in {U}, T \in {S} :
               \A i \in Nodes : \A j \in DOMAIN T.vcls[i] : VNear(u[i], u[T.vcls[i][j]], "1p-36")
Steady == (Done /\ cfg.start \in {"steady", "zero"}) =>
             /\ Nil(VSubV(U, us[1]))
             /\ \A i \in DOMAIN ps[2] : RNear(ps[2][i], ps[2][1], "1p-36")
(* with no force and no pressure yet, the first backward Euler step loses     *)
(* kinetic energy                                                            *)
Full(T, u) == LET m == MassDiag(T) IN VSum([i \in DOMAIN u |-> RMul(m[i], VDot(u[i], u[i]))])
Decay == (phase = "project" /\ cg.k = 0 /\ n = 0 /\ cfg.start = "decay" /\ cfg.k = 1 /\ cfg.alpha = "0") =>
            \A T \in {S} : RLe(Full(T, star.u), Full(T, us[1]))
DecayDone == (Done /\ n = 1 /\ cfg.start = "decay" /\ cfg.k = 1) =>
            \A T \in {S} : RLe(Full(T, U), Full(T, star.u))
(* the residual that iterations carry is the true one; the projection is      *)
(* idempotent; divergence and gradient are transposes; H is symmetric         *)
TrueResidual ==
  /\ (phase = "predict" /\ RLe(cg.gamma, Small)) =>
       \A T \in {S}, b \in {Rhs} : Nil(VSubV(cg.r, VSubV(b, OpH(T, cg.x, Mu, Dt0, cfg.k))))
  /\ (phase = "project" /\ RLe(cg.gamma, Small)) =>
       \A T \in {S} : VNear(cg.r, VScale(-1, VAdd(OpD(T, star.u), OpE(T, cg.x, Dt0, cfg.k))), "1p-36")
Algebra == Done =>
  \A T \in {S}, u \in {Mask(S, U)}, w \in {Mask(S, Some(G, 11))},
     q \in {Force([i \in DOMAIN ps[2] |-> RStr(RAdd(ps[2][i], i))])}, p \in {Project(S, U)} :
      /\ RNear(VDot(q, OpD(T, u)), DotV(u, OpDt(T, q)), "1p-36")
      /\ RNear(DotV(w, OpH(T, u, Mu, Dt0, cfg.k)), DotV(u, OpH(T, w, Mu, Dt0, cfg.k)), "1p-36")
      /\ Nil(VSubV(p, Project(T, p)))
      /\ (~Shape(cfg.grid).open) =>
            Nil(ExchangeV(T, OpDt(T, [i \in DOMAIN ps[2] |-> "1"])))
(* conjugate gradients end after at most as many iterations as unknowns       *)
Unknowns == Force([g \in Grids |-> 2 * Cardinality({i \in DOMAIN Spaces[g].free :
                          Spaces[g].free[i] = 1 /\ Spaces[g].vcls[i][1] = i})])
Ends == /\ phase = "predict" => cg.k <= Unknowns[cfg.grid]
        /\ phase = "project" => cg.k <= G.pnodes
Emits == Emit /\ Done /\ n = Steps => PrintT("CASE " \o ToJson([order |-> cfg.k, steps |-> n,
              closed |-> ~Shape(cfg.grid).open, start |-> cfg.start]))
=============================================================================
