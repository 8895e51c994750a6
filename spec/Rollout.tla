-------------------------------- MODULE Rollout --------------------------------
(***************************************************************************)
(* The loss of a closure model: the solver starts from the first k states of   *)
(* a window, and every step adds a force of the model.  The force of the first  *)
(* `push` steps is treated as data: errors are not traced back through it.     *)
(* A state is known by its time in the window and the steps whose forces are    *)
(* traced back from it.                                                        *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS Orders, Steps, Pushes, Spare, Emit
VARIABLES cf, i, us, cus, kl, loss, force
vars == <<cf, i, us, cus, kl, loss, force>>

State(time, traced) == [time |-> time, traced |-> traced]
Init == /\ cf \in [order : Orders, steps : Steps, push : Pushes, spare : Spare]
        /\ i = 0 /\ us = [j \in 1..cf.order |-> State(j - 1, {})]
        /\ cus = us /\ kl = {} /\ loss = <<>> /\ force = <<>>
Force_ == /\ force = <<>> /\ i < cf.steps
          /\ LET u == us[cf.order]
                 own == IF i < cf.push THEN {} ELSE u.traced \cup {i}
             IN  /\ force' = <<own>>
                 /\ kl' = kl \cup {[step |-> i, time |-> u.time, traced |-> u.traced \cup {i}]}
          /\ UNCHANGED <<cf, i, us, cus, loss>>
Step == /\ force # <<>>
        /\ LET all == UNION ({us[j].traced : j \in 1..cf.order} \cup {cus[j].traced : j \in 1..cf.order})
               u == State(us[cf.order].time + 1, all \cup force[1])
           IN  /\ us' = Append(Tail(us), u) /\ cus' = Append(Tail(cus), u)
               /\ loss' = Append(loss, [state |-> u, target |-> cf.order + i])
        /\ i' = i + 1 /\ force' = <<>> /\ UNCHANGED <<cf, kl>>
Next == Force_ \/ Step
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

(* every prediction is compared with the state of its own time                  *)
OwnTarget == \A j \in DOMAIN loss : loss[j].state.time = loss[j].target
Window == \A j \in DOMAIN loss : loss[j].target < cf.order + cf.steps + cf.spare
(* and is traced back to the later forces only, all of them                     *)
Traced == \A j \in DOMAIN loss : loss[j].state.traced = {s \in cf.push..(j - 1) : TRUE}
(* the divergence of every step counts, through its own parameters too          *)
Divergences == \A s \in 0..(i - 1) : \E e \in kl : e.step = s /\ s \in e.traced /\ e.time = cf.order - 1 + s
History == /\ cus = us /\ \A j \in 1..cf.order : us[j].time = i + j - 1
Emits == (Emit /\ i = cf.steps) => PrintT("CASE " \o ToJson(cf))
Done == <>(i = cf.steps)
=============================================================================
