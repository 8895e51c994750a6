------------------------------ MODULE ScheduleDef ------------------------------
(***************************************************************************)
(* Schedules of the learning rate and of the weight of the KL term, as       *)
(* functions of the number of steps.  c: configuration, with rational        *)
(* numbers of epochs.                                                       *)
(***************************************************************************)
EXTENDS BigRat

PiR == RDiv("314159265358979323846264338327950288", "100000000000000000000000000000000000")
RECURSIVE CosTerms(_, _, _)
(* terms k, k + 1, ... of the series of the cosine of sqrt(y), given term k    *)
CosTerms(y, k, term) ==
  IF k > 26 THEN "0"
  ELSE RAdd(term, CosTerms(y, k + 1,
         RRound(RDiv(RMul(term, RNeg(y)), (2 * k + 1) * (2 * k + 2)), 120)))
CosPi(x) == LET z == RRound(RMul(PiR, x), 120) IN CosTerms(RRound(RMul(z, z), 120), 0, 1)

Clamp(x) == RMax(0, RMin(1, x))
(* from a to b in n steps, then b                                              *)
Ramp(s, a, b, n) == RAdd(a, RMul(RSub(b, a), Clamp(RDiv(s, n))))

WarmSteps(c) == RMul(c.warmup, c.spe)
CosSteps(c) == RMul(RMax(RSub(c.epochs, c.warmup), 1), c.spe)
LearningRate(c, s) ==
  IF RLt(s, WarmSteps(c)) THEN Ramp(s, 0, c.base, WarmSteps(c))
  ELSE RMul(c.base, RDiv(RAdd(1, CosPi(Clamp(RDiv(RSub(s, WarmSteps(c)), CosSteps(c))))), 2))
UpDown(c, s) ==
  IF RLt(s, WarmSteps(c)) THEN Ramp(s, 0, c.base, WarmSteps(c))
  ELSE IF REq(c.warmup, 0) THEN c.base
  ELSE Ramp(RSub(s, WarmSteps(c)), c.base, 0, WarmSteps(c))
KLPenalty(c, s) ==
  LET zero == RMul(c.zero, c.spe)
  IN IF RLt(s, zero) THEN 0
     ELSE Ramp(RSub(s, zero), 0, c.penalty, RMul(c.transition, c.spe))
=============================================================================
