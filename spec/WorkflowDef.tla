------------------------------ MODULE WorkflowDef ------------------------------
(***************************************************************************)
(* The calls that lead from a description of a mesh to integrals, on uniform   *)
(* meshes of n^d elements: when each is accepted, and what it gives.            *)
(* An object: kind ("premesh", "mesh", "space", "function"), d, n, pts nodes      *)
(* of some type along an edge, per: periodic axes, groups: names of groups of      *)
(* facets, parts: device of each element or <<>>, q: quadrature points along an     *)
(* edge, value: "scalar" or "vector", open: values are left open.                    *)
(***************************************************************************)
EXTENDS Cube

Types == {"nc", "gl", "gll"}            \* the fourth, "single", is not for meshes
Continuous(t) == t \in {"nc", "gll"}
Premesh(d, n, pts, type, per, groups, parts) ==
  [kind |-> "premesh", d |-> d, n |-> n, pts |-> pts, type |-> type, per |-> per, groups |-> groups,
   parts |-> parts, q |-> 0, value |-> "", open |-> FALSE]

(* ------------------------------ sizes ----------------------------------- *)
Els(o) == 1..IPow(o.n, o.d)
Npe(o) == IPow(o.pts, o.d)
Position(o, e) == Multi(e - 1, o.d, o.n)
(* nodes of an element: places in the grid of nodes, or its own if discontinuous *)
Nodes(o, e) == {IF Continuous(o.type) THEN [a \in 1..o.d |-> Position(o, e)[a] * (o.pts - 1) + m[a]]
                ELSE <<e>> \o m : m \in Grid(o.d, o.pts)}
NodesOf(o, S) == UNION {Nodes(o, e) : e \in S}
Wide(o) == o.n * (o.pts - 1)
(* the periodic images of a node share a degree of freedom                      *)
Dof(o, x) == IF Continuous(o.type) THEN [a \in 1..o.d |-> IF a \in o.per THEN x[a] % Wide(o) ELSE x[a]] ELSE x
Dofs(o, S) == {Dof(o, x) : x \in S}
OnBoundary(o, x) == "boundary" \in o.groups /\ \E a \in (1..o.d) \ o.per : x[a] \in {0, Wide(o)}
Devices(o) == IF o.parts = <<>> THEN {0} ELSE 0..(CHOOSE m \in {o.parts[e] : e \in DOMAIN o.parts} :
                                                    \A e \in DOMAIN o.parts : o.parts[e] <= m)
Home(o, p) == IF o.parts = <<>> THEN Els(o) ELSE {e \in Els(o) : o.parts[e] = p}
Most(f, S) == CHOOSE m \in {f[p] : p \in S} : \A p \in S : f[p] <= m
(* nodes and elements stored per device, padding included                       *)
Slots(o) == Most([p \in Devices(o) |-> Cardinality(NodesOf(o, Home(o, p)))], Devices(o))
Rows(o) == Most([p \in Devices(o) |-> Cardinality(Home(o, p))], Devices(o))

(* ------------------------------ calls ------------------------------------ *)
Refused == [ok |-> FALSE]
Gives(o) == [ok |-> TRUE, o |-> o]
When(c, o) == IF c THEN Gives(o) ELSE Refused
RECURSIVE Product(_)
Product(s) == IF s = <<>> THEN 1 ELSE Head(s) * Product(Tail(s))
RECURSIVE Ravel(_, _)
Ravel(x, s) == IF s = <<>> THEN 0 ELSE Ravel(SubSeq(x, 1, Len(x) - 1), SubSeq(s, 1, Len(s) - 1)) * s[Len(s)] + x[Len(x)]
Root(K, d) == {m \in 2..K : IPow(m, d) = K}

Cube_(c) ==
  LET o == Premesh(c.d, c.n, 2, "nc", {c.per[i] : i \in DOMAIN c.per}, {}, <<>>)
  IN  IF \E a \in DOMAIN c.blocks : c.n % c.blocks[a] # 0 THEN Refused ELSE
      Gives([o EXCEPT !.groups = IF o.per = 1..c.d THEN {} ELSE {"boundary"},
        !.parts = IF c.blocks = <<>> THEN <<>> ELSE
          [e \in Els(o) |-> Ravel([a \in 1..c.d |-> (Position(o, e)[a] * c.blocks[a]) \div c.n], c.blocks)]])
(* a single element given by its K nodes                                       *)
Raw(c) ==
  LET m == IF c.pts = 0 THEN Root(c.K, c.d) ELSE {c.pts}
      type == IF c.pts = 0 THEN "nc" ELSE c.type
  IN  IF \E k \in m : IPow(k, c.d) = c.K
      THEN Gives([Premesh(c.d, 1, CHOOSE k \in m : IPow(k, c.d) = c.K, type, {}, {}, <<>>) EXCEPT !.kind = c.what])
      ELSE Refused
(* a file of n x n quadrilaterals                                              *)
Read(c) == When(c.d = 2, Premesh(2, c.n, 2, "nc", {}, {}, <<>>))
Refine(o, c) ==
  LET open == ~Continuous(c.type)
  IN  IF o.kind # "premesh" \/ o.pts # 2 \/ c.type \notin Types \/ c.pts < 2 THEN Refused
      ELSE IF ~open /\ ~Continuous(o.type) THEN Refused    \* its nodes are not corners
      ELSE IF ~open /\ "empty" \in o.groups THEN Refused
      ELSE Gives([o EXCEPT !.pts = c.pts, !.type = c.type, !.groups = IF open THEN {} ELSE @, !.per = IF open THEN {} ELSE @])
Assign(o, c) == Gives([o EXCEPT !.parts = c.parts])
Empty(o) == Gives([o EXCEPT !.groups = @ \cup {"empty"}])
(* the nodes numbered in another way: nothing that is described here changes    *)
Renumber(o, c) == Gives(o)
Images(o) == \E p \in Devices(o) : \E S \in {NodesOf(o, Home(o, p))} : Cardinality(Dofs(o, S)) < Cardinality(S)
Finalize(o, c) ==
  When(o.parts = <<>> \/ (c.axis /\ ~Images(o)), [o EXCEPT !.kind = "mesh"])
Space(o, c) == When(c.type \in Types /\ c.q >= 2, [o EXCEPT !.kind = "space", !.q = c.q])
Expected(o, value) == <<Rows(o), Npe(o)>> \o (IF value = "vector" THEN <<o.d>> ELSE <<>>)
Function(o, c) ==
  When(c.open \/ c.shape = Expected(o, c.value), [o EXCEPT !.kind = "function", !.value = c.value, !.open = c.open])
(* calls that give numbers: the object stands for the shape of the result        *)
Number(shape) == [kind |-> "numbers", shape |-> shape]
Gather(o, c) == When(c.shape = <<Slots(o)>>, Number(<<Rows(o), Npe(o)>>))
Scatter(o, c) == When(c.shape = <<Rows(o), Npe(o)>>, Number(<<Slots(o)>>))
Integrate(o, c) == When(~o.open /\ c.form = "square", Number(<<>>))
Covector(o, c) == When(c.open = 1, Number(Expected(o, c.value)))

On(o, c) ==
  CASE c.op = "refine" -> Refine(o, c) [] c.op \in {"assign", "partition"} -> Assign(o, c) [] c.op = "empty" -> Empty(o)
    [] c.op = "renumber" -> Renumber(o, c)
    [] c.op = "finalize" -> Finalize(o, c) [] c.op = "space" -> Space(o, c) [] c.op = "function" -> Function(o, c)
    [] c.op = "gather" -> Gather(o, c) [] c.op = "scatter" -> Scatter(o, c)
    [] c.op = "integrate" -> Integrate(o, c) [] c.op = "covector" -> Covector(o, c)
Call(objs, c) ==
  CASE c.op = "cube" -> Cube_(c) [] c.op = "raw" -> Raw(c) [] c.op = "read" -> Read(c) [] OTHER -> On(objs[c.i], c)
=============================================================================
