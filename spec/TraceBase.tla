------------------------------ MODULE TraceBase ------------------------------
(***************************************************************************)
(* Skeleton of trace validation.  Every recorded trace of the code is one  *)
(* behaviour: it starts in <<tid, "todo">> and its single step evaluates    *)
(* the clauses of the specification on the trace.  A trace conforms when   *)
(* no clause fails; otherwise the names of the failing clauses are printed *)
(* as its verdict.                                                         *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils

CONSTANT Failing(_)    \* trace -> set of names of the clauses it breaks

Traces == JsonDeserialize(IOEnv.TRACE_FILE)

VARIABLES tid, tst

TraceInit == tid \in 1..Len(Traces) /\ tst = "todo"

TraceNext ==
  /\ tst = "todo"
  /\ tst' = "done"
  /\ UNCHANGED tid
  /\ LET f == IF Traces[tid].outcome \in {"timeout", "crashed"}
              THEN {"returns"}
              ELSE Failing(Traces[tid])
     IN  \/ f = {}
         \/ f # {} /\ PrintT("VERDICT " \o ToJson([tid |-> tid, failing |-> f]))

TraceSpec == TraceInit /\ [][TraceNext]_<<tid, tst>>

(* Clause helper: the set {name} unless the condition holds. *)
Clause(name, cond) == IF cond THEN {} ELSE {name}
=============================================================================
