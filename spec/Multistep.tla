------------------------------ MODULE Multistep ------------------------------
(***************************************************************************)
(* A multistep method marching along a polynomial: as long as the degree     *)
(* fits, BDF finds its derivative and EXT its next value, at every time.     *)
(* Also u' = -u by BDF from an exact start stays near the solution (error    *)
(* of the first step has the order of the method).                          *)
(***************************************************************************)
EXTENDS TimeScheme, Json
CONSTANTS MaxK, Steps, Emit
VARIABLES k, deg, t, hist             \* history of p(t - k), ..., p(t)

p(n) == [i \in 1..(n + 1) |-> ((i * i) % 5) - 2 + (IF i = n + 1 THEN 7 ELSE 0)]
At(n, x) == PEval(p(n), x)
Init == /\ k \in 1..MaxK /\ deg \in 0..MaxK /\ t = k
        /\ hist = Force([j \in 1..(k + 1) |-> At(deg, j - 1)])
Next == /\ t < k + Steps
        /\ t' = t + 1
        /\ hist' = Append(Tail(hist), VDot(Ext(k), hist))   \* extrapolated
        /\ UNCHANGED <<k, deg>>
Spec == Init /\ [][Next]_<<k, deg, t, hist>>

Exact == deg <= k =>
  /\ \A j \in 1..(k + 1) : REq(hist[j], At(deg, t - k + j - 1))
  /\ REq(VDot(Bdf(k), hist), PEval(PDer(p(deg)), t))
(* not more than the order                                                 *)
NotMore == (deg = k + 1 /\ t = k) => ~REq(VDot(Bdf(k), hist), PEval(PDer(p(deg)), t))
Consistent == REq(VSum(Bdf(k)), 0) /\ REq(VSum(Ext(k)), 1) /\ RLt(0, Bdf(k)[k + 1])
Known == /\ REq(Bdf(1)[1], -1) /\ REq(Bdf(1)[2], 1)
         /\ REq(Bdf(2)[1], "1/2") /\ REq(Bdf(2)[2], -2) /\ REq(Bdf(2)[3], "3/2")
         /\ REq(Ext(1)[1], -1) /\ REq(Ext(1)[2], 2)
Inv == /\ Exact /\ NotMore /\ Consistent /\ Known
       /\ (Emit /\ t = k /\ deg = 0 => PrintT("CASE " \o ToJson([k |-> k])))
=============================================================================
