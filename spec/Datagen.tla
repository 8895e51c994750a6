-------------------------------- MODULE Datagen --------------------------------
(***************************************************************************)
(* The data generator: cycles of steps, each writing a file of every tenth    *)
(* state.  A state is known by the number of steps that led to it; a step      *)
(* combines the last k states.  A cycle starts from what the one before left.  *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS Orders, Lengths, Cycles, Every, Emit
VARIABLES k, n, left, us, cs, file, files, plan
vars == <<k, n, left, us, cs, file, files, plan>>

Initial(j) == IF j < 0 THEN 0 ELSE j
Init == /\ k \in Orders /\ n = 0 /\ left = 0
        /\ us = [j \in 1..k |-> 0] /\ cs = <<>> /\ file = <<>> /\ files = <<>> /\ plan = <<>>
Open == /\ left = 0 /\ file = <<>> /\ Len(plan) < Cycles
        /\ left' \in Lengths
        /\ plan' = Append(plan, left')
        /\ cs' = us                               \* convection of the whole history
        /\ file' = <<us[k]>>
        /\ UNCHANGED <<k, n, us, files>>
Step == /\ left > 0
        /\ n' = n + 1 /\ left' = left - 1
        /\ us' = Append(Tail(us), n + 1)
        /\ cs' = Append(Tail(cs), n + 1)
        /\ file' = IF (plan[Len(plan)] - left') % Every = 0 THEN Append(file, n + 1) ELSE file
        /\ UNCHANGED <<k, files, plan>>
Close == /\ left = 0 /\ file # <<>>
         /\ files' = Append(files, [from |-> n - plan[Len(plan)], to |-> n, snaps |-> file])
         /\ file' = <<>> /\ cs' = <<>>
         /\ UNCHANGED <<k, n, left, us, plan>>
Next == Open \/ Step \/ Close
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

(* the history, whatever the cycles: the last k states                         *)
History == \A j \in 1..k : us[j] = Initial(n - k + j)
Convection == cs # <<>> => cs = us
(* files follow each other and hold the states that their times say            *)
Contiguous == \A i \in DOMAIN files :
   /\ files[i].from = (IF i = 1 THEN 0 ELSE files[i - 1].to)
   /\ \A s \in DOMAIN files[i].snaps : files[i].snaps[s] = files[i].from + Every * (s - 1)
   /\ Len(files[i].snaps) = ((files[i].to - files[i].from) \div Every) + 1
(* cycles of a multiple of Every: nothing between files is missing             *)
Gapless == (\A i \in DOMAIN plan : plan[i] % Every = 0) =>
   \A m \in 0..n : (m % Every = 0 /\ files # <<>> /\ m <= files[Len(files)].to) =>
      \E i \in DOMAIN files : \E s \in DOMAIN files[i].snaps : files[i].snaps[s] = m
Names == \A i, j \in DOMAIN files : (files[i].from = files[j].from /\ files[i].to = files[j].to)
            => (i = j \/ files[i].from = files[i].to)
Emits == (Emit /\ Len(files) = Cycles) => PrintT("CASE " \o ToJson([order |-> k, cycles |-> plan]))
Done == <>(Len(files) = Cycles)
=============================================================================
