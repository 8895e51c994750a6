------------------------------- MODULE Exchange -------------------------------
(***************************************************************************)
(* Exchange of shared degrees of freedom between partitions (and, without   *)
(* partitions, between periodic images): u := Q Q' u.  Slot s of partition  *)
(* p holds a copy of dof ids[p][s], or nothing (-1).  Values are multisets  *)
(* of contributions, so the model decides that everyone's contribution is   *)
(* counted exactly once.                                                    *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS Parts, Slots, Dofs, Emit

VARIABLES partitioned, ids, val, part, all, pc
vars == <<partitioned, ids, val, part, all, pc>>

P == 1..Len(ids)
S == 1..Slots
Cells == P \X S
Zero == [c \in (1..Parts) \X (1..Slots) |-> 0]
One(p, s) == [Zero EXCEPT ![<<p, s>>] = 1]
Plus(a, b) == [c \in DOMAIN a |-> a[c] + b[c]]
RECURSIVE SumOver(_, _)
SumOver(C, f) == IF C = {} THEN Zero
                 ELSE LET c == CHOOSE c \in C : TRUE
                      IN Plus(f[c], SumOver(C \ {c}, f))

Copies(d) == {c \in Cells : ids[c[1]][c[2]] = d}
Dup == \E p \in P : \E s, t \in S : s # t /\ ids[p][s] >= 0 /\ ids[p][s] = ids[p][t]

Init ==
  \E np \in 1..Parts : \E x \in [1..np -> [1..Slots -> (-1)..(Dofs-1)]] : \E b \in BOOLEAN :
    /\ ~b => np = 1 /\ \A s \in 1..Slots : x[1][s] >= 0
    /\ partitioned = b /\ ids = x
    /\ val = [c \in (1..np) \X (1..Slots) |-> One(c[1], c[2])]
    /\ part = <<>> /\ all = <<>> /\ pc = "check"
    /\ IF Emit THEN PrintT("CASE " \o ToJson([partitioned |-> b, ids |-> x])) ELSE TRUE

Refuse ==      \* periodicity within a partition is not supported
  /\ pc = "check" /\ partitioned /\ Dup /\ pc' = "refused"
  /\ UNCHANGED <<partitioned, ids, val, part, all>>
Accept == /\ pc = "check" /\ ~(partitioned /\ Dup) /\ pc' = "consolidate"
          /\ UNCHANGED <<partitioned, ids, val, part, all>>
Consolidate == \* each partition adds up its own copies
  /\ pc = "consolidate"
  /\ part' = [p \in P |-> [d \in 0..(Dofs-1) |->
                SumOver({c \in Copies(d) : c[1] = p}, val)]]
  /\ pc' = "reduce" /\ UNCHANGED <<partitioned, ids, val, all>>
Reduce ==      \* sum over the partitions
  /\ pc = "reduce"
  /\ all' = [d \in 0..(Dofs-1) |->
               SumOver({<<p, 1>> : p \in P}, [c \in {<<p, 1>> : p \in P} |-> part[c[1]][d]])]
  /\ pc' = "expand" /\ UNCHANGED <<partitioned, ids, val, part>>
Expand ==
  /\ pc = "expand"
  /\ val' = [c \in Cells |-> LET d == ids[c[1]][c[2]] IN
               IF d < 0 \/ Cardinality(Copies(d)) <= 1 THEN val[c] ELSE all[d]]
  /\ pc' = "done" /\ UNCHANGED <<partitioned, ids, part, all>>
Next == Refuse \/ Accept \/ Consolidate \/ Reduce \/ Expand
Spec == Init /\ [][Next]_vars

ExactlyOnce == pc = "done" => \A c \in Cells : LET d == ids[c[1]][c[2]] IN
   val[c] = [e \in DOMAIN Zero |->
     IF e = c \/ (d >= 0 /\ e \in Copies(d)) THEN 1 ELSE 0]
Consistent == pc = "done" => \A c, e \in Cells :
   (ids[c[1]][c[2]] >= 0 /\ ids[c[1]][c[2]] = ids[e[1]][e[2]]) => val[c] = val[e]
Inv == ExactlyOnce /\ Consistent
=============================================================================
