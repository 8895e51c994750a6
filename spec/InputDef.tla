------------------------------- MODULE InputDef -------------------------------
(* Windows of the shards of a data set and their share of each process.        *)
EXTENDS Integers, Sequences, FiniteSets

Starts(len, size, stride) == {i \in 0..(len - 1) : i % stride = 0 /\ i + size <= len}
(* A window: the shard and the snapshots <<i, i + step, ...>> below i + size.  *)
Snapshots(i, size, step) == [k \in 1..((size + step - 1) \div step) |-> i + (k - 1) * step]
PerShard(len, size, stride) == IF len < size THEN 0 ELSE (len - size) \div stride + 1
Windows(shards, len, size, stride, step) ==
  {[shard |-> s, at |-> Snapshots(i, size, step)] : s \in shards, i \in Starts(len, size, stride)}
=============================================================================
