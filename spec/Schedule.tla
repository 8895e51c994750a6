------------------------------- MODULE Schedule -------------------------------
(* A run of the trainer, step by step, as far as its schedules are concerned.  *)
EXTENDS ScheduleDef, TLC, Json
CONSTANTS Epochs, Warmups, Zeros, Transitions, PerEpoch, Emit
VARIABLES c, step, lr, ud, kl, before

vars == <<c, step, lr, ud, kl, before>>
Values(x, s) == [lr |-> LearningRate(x, s), ud |-> UpDown(x, s), kl |-> KLPenalty(x, s)]
Init == /\ c \in [epochs : Epochs, warmup : Warmups, zero : Zeros, transition : Transitions,
                  spe : PerEpoch, base : {"3/4"}, penalty : {"1/8"}]
        /\ step = 0
        /\ \E v \in {Values(c, 0)} : /\ lr = v.lr /\ ud = v.ud /\ kl = v.kl
        /\ before = [lr |-> lr, ud |-> ud, kl |-> kl]
Last == RMul(RAdd(RMax(RAdd(c.epochs, 1), RMul(2, RAdd(c.warmup, 1))),
                  RAdd(c.zero, c.transition)), c.spe)
Next == /\ RLt(step, Last)
        /\ step' = step + 1
        /\ before' = [lr |-> lr, ud |-> ud, kl |-> kl]
        /\ \E v \in {Values(c, step + 1)} : /\ lr' = v.lr /\ ud' = v.ud /\ kl' = v.kl
        /\ UNCHANGED c
Spec == Init /\ [][Next]_vars

Tiny == "1p-80"
Up(a, b) == RLe(a, RAdd(b, Tiny))
Warm == WarmSteps(c)
Bounds == /\ Up(0, lr) /\ Up(lr, c.base) /\ Up(0, ud) /\ Up(ud, c.base)
          /\ Up(0, kl) /\ Up(kl, c.penalty)
(* it rises until the end of the warm-up, and falls from then on               *)
Shape == step > 0 =>
  /\ RLe(step, Warm) => Up(before.lr, lr) /\ Up(before.ud, ud)
  /\ RLe(Warm, step - 1) => Up(lr, before.lr) /\ Up(ud, before.ud)
  /\ Up(before.kl, kl)
Ends == /\ step = 0 => REq(kl, 0) /\ (RLt(0, c.warmup) => REq(lr, 0) /\ REq(ud, 0))
        /\ REq(step, Warm) => REq(lr, c.base) /\ REq(ud, c.base)
        /\ RLe(RAdd(Warm, CosSteps(c)), step) => RNear(lr, 0, Tiny)
        /\ (RLe(RMul(2, Warm), step) /\ RLt(0, c.warmup)) => REq(ud, 0)
        /\ RLe(step, RMul(c.zero, c.spe)) => REq(kl, 0)
        /\ RLe(RMul(RAdd(c.zero, c.transition), c.spe), step) => REq(kl, c.penalty)
(* symmetric about the middle of the decay, where it has half of its value     *)
Half == \A d \in {RDiv(RSub(RMul(2, RSub(step, Warm)), CosSteps(c)), 2)} :
          RLe(RAbs(d), RDiv(CosSteps(c), 2)) =>
            RNear(RAdd(lr, RMul(c.base, RDiv(RAdd(1, CosPi(RSub("1/2", RDiv(d, CosSteps(c))))), 2))),
                  c.base, "1p-80")
Known == /\ RNear(CosPi("1/3"), "1/2", "1p-90") /\ RNear(CosPi("1/2"), 0, "1p-90")
         /\ RNear(CosPi(1), -1, "1p-90")
         /\ RNear(RMul(CosPi("1/4"), CosPi("1/4")), "1/2", "1p-90")
Emits == Emit /\ step = 0 => PrintT("CASE " \o ToJson(c))
=============================================================================
