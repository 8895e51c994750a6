------------------------------ MODULE WorkflowTrace -----------------------------
(***************************************************************************)
(* Recorded histories of calls.  t.results[k]: what call k of c.made gave;      *)
(* t.kept: objects are at the end as they were made; t.again: calls repeated     *)
(* at the end give the same; t.rebuilt: objects survive being taken apart.        *)
(***************************************************************************)
EXTENDS TraceBase, WorkflowDef, BigRat

Sorted(o) == (IF "boundary" \in o.groups THEN <<"boundary">> ELSE <<>>) \o (IF "empty" \in o.groups THEN <<"empty">> ELSE <<>>)
Order(o) == [k \in 1..Cardinality(Devices(o)) |-> k - 1]
Each(o, x) == [k \in DOMAIN Order(o) |-> x]
Held(o, p) == NodesOf(o, Home(o, p))
Sum(s) == IF s = <<>> THEN 0 ELSE LET f[k \in 0..Len(s)] == IF k = 0 THEN 0 ELSE f[k - 1] + s[k] IN f[Len(s)]
Masked(o, name) == IF name = "empty" THEN 0 ELSE
  Sum([k \in DOMAIN Order(o) |-> Cardinality({x \in Held(o, k - 1) : OnBoundary(o, x)})])

(* an object is described as it should be                                      *)
Described(o, r) ==
  CASE o.kind = "premesh" ->
       /\ r.kind = "premesh" /\ r.d = o.d /\ r.pts = o.pts /\ r.order = o.pts - 1 /\ r.type = o.type
       /\ r.els = IPow(o.n, o.d) /\ r.npe = Npe(o) /\ r.nodes = Cardinality(NodesOf(o, Els(o)))
       /\ r.groups = Sorted(o) /\ r.parted = (o.parts # <<>>) /\ r.parts = o.parts
    [] o.kind = "mesh" ->
       /\ r.kind = "mesh" /\ r.d = o.d /\ r.pts = o.pts /\ r.order = o.pts - 1 /\ r.type = o.type
       /\ r.slots = Slots(o) /\ r.rows = Rows(o) /\ r.npe = Npe(o)
       /\ r.lead = IF o.parts = <<>> THEN <<>> ELSE <<Cardinality(Devices(o))>>
       /\ r.used = [k \in DOMAIN Order(o) |-> Cardinality(Held(o, k - 1))]
       /\ r.dofs = Cardinality(Dofs(o, NodesOf(o, Els(o))))
       /\ r.groups = Sorted(o) /\ r.masked = [g \in DOMAIN Sorted(o) |-> Masked(o, Sorted(o)[g])]
       /\ r.axis = IF o.parts = <<>> THEN "None" ELSE "p"
    [] o.kind = "space" ->
       /\ r.kind = "space" /\ r.els = Each(o, Rows(o)) /\ r.points = Each(o, IPow(o.q, o.d))
       /\ r.coords = Each(o, <<Rows(o), IPow(o.q, o.d), o.d>>) /\ r.jacdets = Each(o, <<Rows(o), IPow(o.q, o.d)>>)
    [] o.kind = "function" ->
       /\ r.kind = "function" /\ r.value = Each(o, IF o.value = "vector" THEN <<o.d>> ELSE <<>>)
(* ones everywhere, on elements of volume one                                   *)
Numbers(o, n, c, r) ==
  LET size(p) == CASE c.op \in {"gather", "scatter"} -> Cardinality(Home(o, p)) * Npe(o)
                   [] c.op = "integrate" -> Cardinality(Home(o, p)) * (IF o.value = "vector" THEN o.d ELSE 1)
                   [] c.op = "covector" -> Cardinality(Home(o, p)) * (IF c.value = "vector" THEN o.d ELSE 1)
  IN  /\ r.kind = "numbers" /\ r.shape = Each(o, n.shape)
      /\ \A k \in DOMAIN Order(o) : RNum(r.total[k]) /\ RNear(r.total[k], size(k - 1), "1p-30")

RECURSIVE Follow(_, _, _)
Follow(t, k, objs) ==
  IF k > Len(t.results) THEN {} ELSE
  CHOOSE z \in {
    IF x.ok # t.results[k].ok THEN {IF x.ok THEN "accepted" ELSE "refused"}
    ELSE IF ~x.ok THEN Follow(t, k + 1, objs)
    ELSE (IF x.o.kind = "numbers"
          THEN Clause("numbers", Numbers(objs[t.case.made[k].i], x.o, t.case.made[k], t.results[k]))
          ELSE Clause("described", Described(x.o, t.results[k])))
         \cup Follow(t, k + 1, Append(objs, x.o))
    : x \in {Call(objs, t.case.made[k])}} : TRUE
All(s) == \A k \in DOMAIN s : s[k]

TraceFailing(t) ==
  IF t.outcome # "ok" THEN {"completes"} ELSE
  Follow(t, 1, <<>>)
  \cup Clause("kept", All(t.kept)) \cup Clause("spared", t.spared)
  \cup Clause("again", All(t.again)) \cup Clause("rebuilt", All(t.rebuilt))
=============================================================================
