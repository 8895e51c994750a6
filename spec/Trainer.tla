-------------------------------- MODULE Trainer --------------------------------
(***************************************************************************)
(* A training job that is started, crashes at any point, and is started       *)
(* again, possibly to run for longer.  The lineage of a state is the list of   *)
(* steps that led to it: step number, run, and batch of that run (data         *)
(* restarts with every run).  Saving is atomic: a crash leaves it undone.      *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS Ends, LogEvery, EvalEvery, SaveEvery, EvalBatches, MaxRuns, Emit
VARIABLES cf, pc, disk, mem, lineage, run, start, end, logged, evals, hist

vars == <<cf, pc, disk, mem, lineage, run, start, end, logged, evals, hist>>
Latest(d) == IF DOMAIN d = {} THEN 0 ELSE CHOOSE k \in DOMAIN d : \A j \in DOMAIN d : j <= k
At(d, k) == IF k = 0 THEN <<>> ELSE d[k]

Init == /\ cf \in [log : LogEvery, eval : EvalEvery, save : SaveEvery, batches : EvalBatches]
        /\ pc = "down" /\ disk = [k \in {} |-> <<>>] /\ mem = 0 /\ lineage = <<>>
        /\ run = 0 /\ start = 0 /\ end = 0 /\ logged = <<>> /\ evals = <<>> /\ hist = <<>>

Start == /\ pc = "down" /\ run < MaxRuns
         /\ run' = run + 1
         /\ end' \in Ends
         /\ start' = Latest(disk) /\ mem' = Latest(disk) /\ lineage' = At(disk, Latest(disk))
         /\ logged' = <<>> /\ evals' = <<>>
         /\ pc' = "ready" /\ UNCHANGED <<cf, disk, hist>>
Step == /\ pc = "ready" /\ mem < end
        /\ mem' = mem + 1
        /\ lineage' = Append(lineage, [step |-> mem, run |-> run, batch |-> mem - start])
        /\ pc' = "stepped" /\ UNCHANGED <<cf, disk, run, start, end, logged, evals, hist>>
Log == /\ pc = "stepped"
       /\ logged' = IF mem % cf.log = 0 THEN Append(logged, mem) ELSE logged
       /\ pc' = "logged" /\ UNCHANGED <<cf, disk, mem, lineage, run, start, end, evals, hist>>
Eval == /\ pc = "logged"
        /\ evals' = IF mem % cf.eval = 0
                    THEN Append(evals, [step |-> mem, first |-> cf.batches * Len(evals)]) ELSE evals
        /\ pc' = "evaluated" /\ UNCHANGED <<cf, disk, mem, lineage, run, start, end, logged, hist>>
Saves == mem % cf.save = 0 \/ mem = end
Save == /\ pc = "evaluated"
        /\ disk' = IF Saves THEN [k \in DOMAIN disk \cup {mem} |-> IF k = mem THEN lineage ELSE disk[k]]
                   ELSE disk
        /\ pc' = "ready" /\ UNCHANGED <<cf, mem, lineage, run, start, end, logged, evals, hist>>
Finish == /\ pc = "ready" /\ mem >= end /\ pc' = "down"
          /\ hist' = Append(hist, [end |-> end, crash |-> "none", at |-> 0])
          /\ UNCHANGED <<cf, disk, mem, lineage, run, start, end, logged, evals>>
Crash == /\ pc # "down"
         /\ \/ pc = "ready" /\ mem < end                          \* waiting for data
            \/ pc = "stepped" /\ mem % cf.log = 0                 \* writing metrics
            \/ pc = "logged" /\ mem % cf.eval = 0                 \* during evaluation
            \/ pc = "evaluated" /\ Saves                          \* while saving
         /\ pc' = "down"
         /\ hist' = Append(hist, [end |-> end, crash |-> pc, at |-> mem - start])
         /\ UNCHANGED <<cf, disk, mem, lineage, run, start, end, logged, evals>>
Next == Start \/ Step \/ Log \/ Eval \/ Save \/ Finish \/ Crash
Spec == Init /\ [][Next]_vars
        /\ WF_vars(Start \/ Step \/ Log \/ Eval \/ Save \/ Finish)

(* Every step of the lineage was done once, in order.                           *)
Whole(l) == \A i \in DOMAIN l : l[i].step = i - 1
Lineage == Len(lineage) = mem /\ Whole(lineage)
Labels == \A k \in DOMAIN disk : Len(disk[k]) = k /\ Whole(disk[k])
(* Batches of a run are used one after another.                                 *)
BatchOrder == \A i \in DOMAIN lineage : \A j \in DOMAIN lineage :
   (i < j /\ lineage[i].run = lineage[j].run) =>
      lineage[j].batch - lineage[i].batch = j - i /\ lineage[i].batch >= 0
RunOrder == \A i \in 1..(Len(lineage) - 1) : lineage[i].run <= lineage[i + 1].run
Durable == pc = "ready" =>
   \A k \in (start + 1)..mem : k % cf.save = 0 => k \in DOMAIN disk /\ disk[k] = SubSeq(lineage, 1, k)
LoseLittle == pc = "down" /\ run > 0 => mem - Latest(disk) <= cf.save
Done == pc = "down" /\ hist # <<>> /\ hist[Len(hist)].crash = "none" =>
   /\ mem = IF start >= end THEN start ELSE end
   /\ mem = Latest(disk) /\ lineage = At(disk, mem)
   /\ logged = SelectSeq([i \in 1..(mem - start) |-> start + i], LAMBDA k : k % cf.log = 0)
Emits == (Emit /\ pc = "down" /\ run = MaxRuns) =>
   PrintT("CASE " \o ToJson([cf |-> cf, runs |-> hist]))
Monotone == [][Latest(disk') >= Latest(disk)]_vars
Ends_ == <>[](pc = "down" /\ run = MaxRuns)
=============================================================================
