------------------------------ MODULE Kolmogorov ------------------------------
(***************************************************************************)
(* The closure solver on shear flows, beside its reflection (y -> -y, u -> -u   *)
(* along x) and a copy in a moving frame.                                      *)
(***************************************************************************)
EXTENDS KolmogorovDef, FiniteSets, TLC, Json
CONSTANTS Orders, Dts, Nus, Drags, Steps, Emit
VARIABLES cf, past, mirror, moving, n
vars == <<cf, past, mirror, moving, n>>

W == "25"
Starts == {<<"1/2", "0", "steady", "0">>, <<"1/2", "1/5", "3/4", "1/4">>,
           <<"-1/4", "-1/8", "1/2", "-1/2">>, <<"0", "0", "1", "0">>}
C(f) == [order |-> f.order, dt |-> f.dt, nu |-> f.nu, drag |-> f.drag, w |-> W]
Steady(f) == RDiv(1, RAdd(RMul(f.nu, RMul(W, W)), f.drag))
First(f) == [U |-> f.s[1], V |-> f.s[2], a |-> (IF f.s[3] = "steady" THEN Steady(f) ELSE f.s[3]), b |-> f.s[4]]
Reflect(s) == [U |-> RNeg(s.U), V |-> RNeg(s.V), a |-> s.a, b |-> RNeg(s.b)]
Boost(s) == [s EXCEPT !.U = RAdd(s.U, "3/4")]
Slide(h, s) == Append(SubSeq(h, 2, Len(h)), s)
Init == /\ cf \in [order : Orders, dt : Dts, nu : Nus, drag : Drags, s : Starts]
        /\ past = [j \in 1..cf.order |-> First(cf)]
        /\ mirror = [j \in 1..cf.order |-> Reflect(First(cf))]
        /\ moving = [j \in 1..cf.order |-> Boost(First(cf))]
        /\ n = 0
Step == /\ n < Steps /\ n' = n + 1 /\ UNCHANGED cf
        /\ \E r \in {Advance(C(cf), past)} : past' = Slide(past, r)
        /\ \E r \in {Advance(C(cf), mirror)} : mirror' = Slide(mirror, r)
        /\ \E r \in {Advance(C(cf), moving)} : moving' = Slide(moving, r)
Spec == Init /\ [][Step]_vars

Tiny == "1p-150"
Now == past[cf.order]
Mirrored == \A j \in 1..cf.order : \A m \in Modes : RNear(mirror[j][m], Reflect(past[j])[m], Tiny)
Galilean == \A j \in 1..cf.order : \A m \in {"V", "a", "b"} : RNear(moving[j][m], past[j][m], Tiny)
(* the laminar profile stays                                                    *)
IsSteady == cf.s[3] = "steady" /\ RSame(cf.s[2], 0) /\ RSame(cf.s[4], 0)
Laminar == IsSteady => RNear(Now.a, Steady(cf), Tiny) /\ RNear(Now.b, 0, Tiny)
(* drag slows the mean flow down, and never turns it around                     *)
MeanFlow == \A m \in {"U", "V"} :
  \A first \in {First(cf)[m]} :
    /\ RLe(0, RMul(first, Now[m]))
    /\ RLe(RAbs(Now[m]), RAdd(RAbs(past[1][m]), Tiny))
    /\ REq(cf.drag, 0) => RNear(Now[m], first, Tiny)
(* the waves stay bounded                                                       *)
Bounded == RLe(RAdd(RMul(Now.a, Now.a), RMul(Now.b, Now.b)), 4)
Emits == (Emit /\ n = Steps) => PrintT("CASE " \o ToJson(cf))
=============================================================================
