---------------------------- MODULE JitDistributed ----------------------------
(***************************************************************************)
(* Calling conventions of a distributed function: which parameter is bound  *)
(* to which argument, which are sharded and which are static, for every     *)
(* Python signature of up to MaxParams parameters and every way to call it. *)
(* A parameter is [name, kwonly, static, dflt].                             *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS MaxParams, Emit

VARIABLES params, explicit, npos, omitted, pc, bound

vars == <<params, explicit, npos, omitted, pc, bound>>

Kinds == [kwonly : BOOLEAN, static : BOOLEAN, dflt : BOOLEAN]

WellFormed(ps) ==
  /\ \A i \in 1..(Len(ps) - 1) : ps[i].kwonly => ps[i + 1].kwonly
  (* a positional parameter after a defaulted one has a default *)
  /\ \A i \in 1..(Len(ps) - 1) :
       (ps[i].dflt /\ ~ps[i + 1].kwonly) => ps[i + 1].dflt

NumPositional(ps) == Cardinality({i \in DOMAIN ps : ~ps[i].kwonly})
Given(ps, om) == DOMAIN ps \ om
Sharded(ps) == {i \in DOMAIN ps : ~ps[i].static}

Init ==
  \E k \in 0..MaxParams :
  \E ps \in [1..k -> Kinds] :
  \E ex \in BOOLEAN :
  \E np \in 0..k :
  \E om \in SUBSET (1..k) :
    /\ WellFormed(ps)
    /\ ~ex => \A i \in 1..k : ps[i].static = ps[i].kwonly
    /\ np <= NumPositional(ps)
    /\ \A i \in om : ps[i].dflt /\ i > np
    /\ (Sharded(ps) # {} => Sharded(ps) \ om # {})
    /\ params = ps /\ explicit = ex /\ npos = np /\ omitted = om
    /\ pc = "call" /\ bound = [i \in 1..k |-> "none"]
    /\ IF Emit THEN PrintT("CASE " \o ToJson(
          [params |-> ps, explicit |-> ex, npos |-> np,
           omitted |-> [i \in 1..k |-> i \in om]])) ELSE TRUE

Bind ==
  /\ pc = "call"
  /\ bound' = [i \in DOMAIN params |->
                 IF i <= npos THEN "positional"
                 ELSE IF i \in omitted THEN "default" ELSE "keyword"]
  /\ pc' = "bound"
  /\ UNCHANGED <<params, explicit, npos, omitted>>
Next == Bind
Spec == Init /\ [][Next]_vars

(* every parameter is bound exactly once, by a binding Python allows *)
Inv == pc = "bound" =>
  \A i \in DOMAIN params :
     /\ bound[i] \in {"positional", "keyword", "default"}
     /\ bound[i] = "positional" => ~params[i].kwonly
     /\ bound[i] = "default" => params[i].dflt
=============================================================================
