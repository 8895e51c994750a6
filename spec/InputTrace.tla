------------------------------ MODULE InputTrace ------------------------------
(***************************************************************************)
(* Recorded batches of all processes of a run.  t.runs[p] holds, for two     *)
(* epochs, the windows of every batch (in the order of the batch), as shard  *)
(* and times of the snapshots; fields of a window are checked against its    *)
(* times.                                                                    *)
(***************************************************************************)
EXTENDS TraceBase, InputDef

ToS(s) == {s[i] : i \in DOMAIN s}
RECURSIVE Flat(_)
Flat(s) == IF s = <<>> THEN <<>> ELSE Head(s) \o Flat(Tail(s))

(* Field values of the data set: distinct for all snapshots, nodes, components. *)
U(shard, i, node, comp) == ((shard * 50 + i) * 4 + node) * 2 + comp
P(shard, i, node) == 1000000 + (shard * 50 + i) * 4 + node

TraceFailing(t) ==
  LET c == t.case
      shards == ToS(c.shards)
      all == Windows(shards, c.len, c.size, c.stride, c.step)
      n == Cardinality(shards) * PerShard(c.len, c.size, c.stride)
      share == n \div c.procs
      fits == n % c.procs = 0
      per == share \div c.batch
      procs == 1..c.procs
      batches(p, e) == t.runs[p].epochs[e]
      examples(p, e) == Flat(batches(p, e))
  IN
  IF ~fits THEN Clause("uneven_shares_are_refused", t.outcome # "ok") ELSE
  IF t.outcome # "ok" THEN {"returns"} ELSE
  LET ex == TLCEval([p \in procs |-> [e \in 1..2 |-> examples(p, e)]])
      ids(p, e) == {[shard |-> w.shard, at |-> w.at] : w \in ToS(ex[p][e])}
      mine == TLCEval([p \in procs |-> ids(p, 1) \cup ids(p, 2)])
  IN
  Clause("number_of_windows_reported", t.num = n)
  \cup Clause("windows_of_consecutive_snapshots",
     \A p \in procs : \A w \in mine[p] : w \in all)
  \cup Clause("fields_belong_to_their_window",
     \A p \in procs : \A e \in 1..2 : \A w \in ToS(ex[p][e]) :
        /\ w.u = [k \in DOMAIN w.at |-> [x \in 1..4 |-> [y \in 1..2 |->
                    U(w.shard, w.at[k], x - 1, y - 1)]]]
        /\ w.p = [k \in DOMAIN w.at |-> [x \in 1..4 |-> P(w.shard, w.at[k], x - 1)]])
  \cup Clause("batches_are_full",
     \A p \in procs : \A e \in 1..2 : \A b \in DOMAIN batches(p, e) : Len(batches(p, e)[b]) = c.batch)
  \cup Clause("all_but_the_remainder_each_epoch",
     \A p \in procs : \A e \in 1..2 : Len(batches(p, e)) = per /\ Cardinality(ids(p, e)) = per * c.batch)
  \cup Clause("processes_share_the_windows",
     /\ \A p, q \in procs : p # q => mine[p] \cap mine[q] = {}
     /\ \A p \in procs : Cardinality(mine[p]) <= share
     /\ share % c.batch = 0 => UNION {mine[p] : p \in procs} = all)
  \cup Clause("examples_are_split_evenly_over_the_devices",
     \A p \in procs : t.runs[p].layout = [devices |-> c.devices, each |-> c.batch \div c.devices])
  \cup Clause("same_order_in_every_run",
     \A p \in procs : t.runs[p].again = [b \in DOMAIN t.runs[p].again |->
        [i \in 1..c.batch |-> [shard |-> batches(p, 1)[b][i].shard, first |-> batches(p, 1)[b][i].at[1]]]])
  \cup Clause("examples_are_shuffled",
     \A p \in procs : share >= 16 =>
       \E i \in 1..(Len(ex[p][1]) - 1) :
         LET v == ex[p][1][i] w == ex[p][1][i + 1]
         IN ~(v.shard < w.shard \/ (v.shard = w.shard /\ v.at[1] < w.at[1])))
=============================================================================
