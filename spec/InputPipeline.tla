---------------------------- MODULE InputPipeline ----------------------------
(***************************************************************************)
(* The input pipeline of one run: Procs processes share the windows of the   *)
(* shards; each of them shuffles its share through a buffer, delivers full   *)
(* batches, drops the remainder at the end of an epoch, and starts again.    *)
(***************************************************************************)
EXTENDS InputDef, TLC, Json

CONSTANTS Shards, Buffer, Lens, Sizes, Strides, Steps, ProcCounts, Batches, Explore, Emit
VARIABLES c, pos, buf, batch, seen, epoch

vars == <<c, pos, buf, batch, seen, epoch>>
AllWindows(x) == Windows(1..Shards, x.len, x.size, x.stride, x.step)
N(x) == Shards * PerShard(x.len, x.size, x.stride)
Share(x) == N(x) \div x.procs
(* the windows in their order of the data set, numbered from 0 *)
Number(x, w) == (w.shard - 1) * PerShard(x.len, x.size, x.stride) + w.at[1] \div x.stride
Numbered(x, n) == CHOOSE w \in AllWindows(x) : Number(x, w) = n
Procs(x) == 0..(x.procs - 1)

Init == /\ c \in {x \in [len : Lens, size : Sizes, stride : Strides, step : Steps,
                         procs : ProcCounts, batch : Batches] :
                    /\ x.len >= x.size /\ N(x) % x.procs = 0 /\ Share(x) >= x.batch}
        /\ pos = [p \in Procs(c) |-> 0] /\ epoch = [p \in Procs(c) |-> 0]
        /\ buf = [p \in Procs(c) |-> {}] /\ batch = [p \in Procs(c) |-> <<>>]
        /\ seen = [p \in Procs(c) |-> {}]

Fill(p) == /\ pos[p] < Share(c) /\ Cardinality(buf[p]) < Buffer
           /\ buf' = [buf EXCEPT ![p] = @ \cup {p * Share(c) + pos[p]}]
           /\ pos' = [pos EXCEPT ![p] = @ + 1]
           /\ UNCHANGED <<c, batch, seen, epoch>>
Draw(p) == /\ pos[p] = Share(c) \/ Cardinality(buf[p]) = Buffer
           /\ Len(batch[p]) < c.batch
           /\ \E w \in buf[p] : /\ buf' = [buf EXCEPT ![p] = @ \ {w}]
                                /\ batch' = [batch EXCEPT ![p] = Append(@, w)]
           /\ UNCHANGED <<c, pos, seen, epoch>>
Deliver(p) == /\ Len(batch[p]) = c.batch
              /\ seen' = [seen EXCEPT ![p] = @ \cup {batch[p][i] : i \in 1..c.batch}]
              /\ batch' = [batch EXCEPT ![p] = <<>>]
              /\ UNCHANGED <<c, pos, buf, epoch>>
Repeat(p) == /\ pos[p] = Share(c) /\ buf[p] = {} /\ Len(batch[p]) < c.batch
             /\ epoch[p] < 2
             /\ epoch' = [epoch EXCEPT ![p] = @ + 1]
             /\ pos' = [pos EXCEPT ![p] = 0] /\ batch' = [batch EXCEPT ![p] = <<>>]
             /\ seen' = [seen EXCEPT ![p] = {}]
             /\ UNCHANGED <<c, buf>>
Next == Explore /\ \E p \in Procs(c) : Fill(p) \/ Draw(p) \/ Deliver(p) \/ Repeat(p)
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

Held(p) == seen[p] \cup buf[p] \cup {batch[p][i] : i \in 1..Len(batch[p])}
(* Nothing is shared between the processes, and nothing is left out.  *)
Counted == /\ Cardinality(AllWindows(c)) = N(c)
           /\ {Number(c, w) : w \in AllWindows(c)} = 0..(N(c) - 1)
           /\ \A w \in AllWindows(c) : \A i \in DOMAIN w.at : w.at[i] < c.len
Disjoint == \A p, q \in Procs(c) : p # q => Held(p) \cap Held(q) = {}
(* Every window read is in one place: none is lost or repeated within an epoch. *)
OncePerEpoch == \A p \in Procs(c) :
  /\ Cardinality(Held(p)) = Cardinality(seen[p]) + Cardinality(buf[p]) + Len(batch[p])
  /\ Held(p) = (p * Share(c))..(p * Share(c) + pos[p] - 1)
Remainder == \A p \in Procs(c) :
  /\ Cardinality(seen[p]) % c.batch = 0
  /\ pos[p] = Share(c) /\ buf[p] = {} /\ Len(batch[p]) < c.batch =>
       Cardinality(seen[p]) = c.batch * (Share(c) \div c.batch)
Emits == Emit /\ (\A p \in Procs(c) : pos[p] = 0 /\ epoch[p] = 0) => PrintT("CASE " \o ToJson(c))
EpochsEnd == Explore => <>(\A p \in Procs(c) : epoch[p] = 2)
=============================================================================
