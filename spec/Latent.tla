-------------------------------- MODULE Latent --------------------------------
(***************************************************************************)
(* Samples of a latent equation: every sample of every member of the batch      *)
(* starts at its own random point and follows its own random path, and carries  *)
(* the divergence between posterior and prior along it.                        *)
(* One coordinate, linear drifts: posterior a z + b start, prior c z, noise d.   *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, BigRat
CONSTANTS Batches, Sampless, Steps, Emit
VARIABLES cf, k, start, z, kl, path
vars == <<cf, k, start, z, kl, path>>

Laws == {[a |-> "1", b |-> "0", c |-> "1", d |-> "1"], [a |-> "1/2", b |-> "1", c |-> "0", d |-> "2"],
         [a |-> "0", b |-> "-1", c |-> "-1", d |-> "0"], [a |-> "0", b |-> "1", c |-> "1", d |-> "1/2"]}
Input(b) == IF b = 1 THEN "1" ELSE "-3/2"
Scale == "1/2"
Members == {<<b, s>> : b \in 1..cf.batch, s \in 1..cf.samples}
Signs == {"-1", "1"}
Init == /\ cf \in [batch : Batches, samples : Sampless, steps : Steps, law : Laws]
        /\ k = 0
        /\ \E e \in [Members -> Signs] :
             start = [m \in Members |-> RAdd(Input(m[1]), RMul(Scale, e[m]))]
        /\ z = start /\ kl = [m \in Members |-> "0"] /\ path = [m \in Members |-> <<>>]
Drift(law, x, x0) == RAdd(RMul(law.a, x), RMul(law.b, x0))
Rate(law, x, x0) ==
  LET u == IF RSame(law.d, 0) THEN "0" ELSE RDiv(RSub(Drift(law, x, x0), RMul(law.c, x)), law.d)
  IN  RDiv(RMul(u, u), 2)
Step == /\ k < cf.steps
        /\ \E e \in [Members -> Signs] :
             /\ path' = [m \in Members |-> Append(path[m], e[m])]
             /\ z' = [m \in Members |-> RAdd(z[m], RAdd(RDiv(Drift(cf.law, z[m], start[m]), cf.steps),
                                                        RDiv(RMul(cf.law.d, e[m]), 2)))]
             /\ kl' = [m \in Members |-> RAdd(kl[m], RDiv(Rate(cf.law, z[m], start[m]), cf.steps))]
        /\ k' = k + 1 /\ UNCHANGED <<cf, start>>
Next == Step
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

(* a sample is determined by its own noise                                     *)
RECURSIVE Alone(_, _, _, _)
Alone(law, x0, w, n) ==
  IF w = <<>> THEN [z |-> x0, kl |-> "0"]
  ELSE LET r == Alone(law, x0, SubSeq(w, 1, Len(w) - 1), n)
       IN  [z |-> RAdd(r.z, RAdd(RDiv(Drift(law, r.z, x0), n), RDiv(RMul(law.d, w[Len(w)]), 2))),
            kl |-> RAdd(r.kl, RDiv(Rate(law, r.z, x0), n))]
OwnPath == \A m \in Members :
  LET r == Alone(cf.law, start[m], path[m], cf.steps) IN RSame(r.z, z[m]) /\ RSame(r.kl, kl[m])
NonNegative == \A m \in Members : RLe(0, kl[m])
(* equal laws do not diverge                                                    *)
Agree == \A m \in Members : (RSame(cf.law.a, cf.law.c) /\ RSame(cf.law.b, 0)) => RSame(kl[m], 0)
(* the mean over the samples lies between them                                  *)
Mean(b) == RDiv(VSum([s \in 1..cf.samples |-> kl[<<b, s>>]]), cf.samples)
MeanBetween == \A b \in 1..cf.batch :
  /\ \E s \in 1..cf.samples : RLe(kl[<<b, s>>], Mean(b))
  /\ \E s \in 1..cf.samples : RLe(Mean(b), kl[<<b, s>>])
(* divergence of the starting points: that of two normal laws of equal width    *)
Q0(b) == RDiv(RMul(Input(b), Input(b)), RMul(2, RMul(Scale, Scale)))
StartDivergence == \A b \in 1..cf.batch : RLt(0, Q0(b))
Increasing == [][\A m \in Members : RLe(kl[m], kl'[m])]_vars
Emits == (Emit /\ k = cf.steps /\ \A m \in Members : \A i \in DOMAIN path[m] : path[m][i] = "1") =>
  PrintT("CASE " \o ToJson([batch |-> cf.batch, samples |-> cf.samples, steps |-> cf.steps,
                            still |-> RSame(cf.law.d, 0)]))
Finishes == <>(k = cf.steps)
=============================================================================
