------------------------------- MODULE Optimizer -------------------------------
(***************************************************************************)
(* Training as the optimizer sees it: gradients come in, now and then the     *)
(* job stops and goes on from a checkpoint, which holds parameters, moments    *)
(* and counter.  A shadow without weight decay and clipping is kept beside it. *)
(***************************************************************************)
EXTENDS OptimizerDef, FiniteSets, TLC, Json
CONSTANTS Sizes, Limits, Decays, Steps, Emit
VARIABLES cf, s, plain, disk, grads, stops
vars == <<cf, s, plain, disk, grads, stops>>

Rate(n) == RDiv(n + 1, 8)
X0 == <<"1", "-1/2">>
Init == /\ cf \in [limit : Limits, decay : Decays]
        /\ s = Start(X0) /\ plain = s /\ disk = s /\ grads = <<>> /\ stops = {}
Learn == /\ Len(grads) < Steps
         /\ \E a, b \in Sizes :
              /\ grads' = Append(grads, <<a, b>>)
              /\ s' = Update(s, <<a, b>>, Rate(s.n), cf.decay, cf.limit)
              /\ plain' = Update(plain, <<a, b>>, Rate(plain.n), 0, "none")
         /\ UNCHANGED <<cf, disk, stops>>
Save == disk.n # s.n /\ disk' = s /\ UNCHANGED <<cf, s, plain, grads, stops>>
Stop == /\ disk.n = s.n /\ s.n > 0 /\ s.n < Steps /\ s.n \notin stops
        /\ stops' = stops \cup {s.n} /\ s' = disk /\ UNCHANGED <<cf, plain, disk, grads>>
Next == Learn \/ Save \/ Stop
Spec == Init /\ [][Next]_vars

Tiny == "1p-150"
Counts == s.n = Len(grads)
(* the moments of clipped gradients are bounded by the limit                   *)
Bounded == cf.limit # "none" =>
  /\ RLe(Norm(s.m), RAdd(cf.limit, Tiny))
  /\ RLe(VSum(s.v), RAdd(RMul(cf.limit, cf.limit), Tiny))
(* no gradient yet: only decay moves the parameters                            *)
Quiet(i) == \A n \in DOMAIN grads : REq(grads[n][i], 0)
Idle == \A i \in 1..2 : Quiet(i) =>
  /\ REq(plain.x[i], X0[i])
  /\ REq(cf.decay, 0) => REq(s.x[i], X0[i])
  /\ REq(s.m[i], 0) /\ REq(s.v[i], 0)
(* the first step has the length of the rate, whatever the size of the gradient *)
First == plain.n = 1 => \A i \in 1..2 :
  (REq(grads[1][i], 0) \/ RNear(RAbs(RSub(plain.x[i], X0[i])), Rate(0), RMul("1/100", Rate(0))))
(* gradients below the limit are left alone                                     *)
Same == (cf.limit = "none" \/ \A n \in DOMAIN grads : RLt(VSum(VMul(grads[n], grads[n])), RMul(cf.limit, cf.limit)))
        /\ REq(cf.decay, 0) => \A i \in 1..2 : RNear(s.x[i], plain.x[i], Tiny)
Emits == (Emit /\ s.n = Steps) =>
  PrintT("CASE " \o ToJson([limit |-> cf.limit, decay |-> cf.decay, grads |-> grads,
                            stops |-> [i \in 1..Steps |-> i \in stops]]))
=============================================================================
