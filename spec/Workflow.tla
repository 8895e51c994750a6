-------------------------------- MODULE Workflow -------------------------------
(***************************************************************************)
(* Histories of calls, from descriptions of meshes to integrals.  A call that   *)
(* is accepted adds an object; one that is refused adds none; neither touches    *)
(* the objects there are.  At most Mistakes calls of a history are refused.       *)
(***************************************************************************)
EXTENDS WorkflowDef, TLC, Json
CONSTANTS Dims, Ns, Pts, MaxCalls, Mistakes, Emit
VARIABLES objs, calls, bad
vars == <<objs, calls, bad>>

Blocks(d, n) == {<<>>} \cup {[a \in 1..d |-> IF a = 1 THEN b ELSE 1] : b \in {2, n}}
First ==
  {[op |-> "cube", d |-> d, n |-> n, per |-> p, blocks |-> b] :
     d \in Dims, n \in Ns, p \in {<<>>, <<1>>, <<1, 2>>}, b \in UNION {Blocks(x, y) : x \in Dims, y \in Ns}}
  \cup {[op |-> "raw", what |-> w, d |-> d, K |-> k, pts |-> m, type |-> "gll"] :
     w \in {"premesh", "mesh"}, d \in Dims, k \in {3, 4, 9}, m \in {0, 2, 3}}
  \cup {[op |-> "read", n |-> n, d |-> d] : n \in Ns, d \in 0..4}
Sensible(c) == c.op # "cube" \/ ((c.d > 1 \/ c.per # <<1, 2>>) /\ (c.blocks = <<>> \/ Len(c.blocks) = c.d))
(* right and wrong shapes                                                      *)
Around(s) == {s, [s EXCEPT ![1] = @ + 1], SubSeq(s, 1, Len(s) - 1), Append(s, 1)}
          \cup (IF Len(s) > 1 THEN {[s EXCEPT ![1] = s[2], ![2] = s[1]]} ELSE {})
Later(o, i) ==
  CASE o.kind = "premesh" ->
        {[op |-> "refine", i |-> i, pts |-> m, type |-> t] : m \in IF o.pts = 2 THEN Pts ELSE {3},
           t \in IF o.pts = 2 THEN {"nc", "gl", "single"} ELSE {"nc"}}
        \cup (IF o.pts = 2 THEN {[op |-> "empty", i |-> i], [op |-> "renumber", i |-> i, by |-> 1]} ELSE {})
        \cup {[op |-> "finalize", i |-> i, axis |-> a] : a \in BOOLEAN}
        \cup (IF o.parts # <<>> THEN {} ELSE
              {[op |-> "assign", i |-> i, parts |-> [e \in Els(o) |-> (e - 1) \div 2]],
               [op |-> "assign", i |-> i, parts |-> [e \in Els(o) |-> IF e = 1 THEN 1 ELSE 0]]})
    [] o.kind = "mesh" ->
        {[op |-> "space", i |-> i, q |-> 3, type |-> t] : t \in {"gl", "nc", "single"}}
        \cup {[op |-> "gather", i |-> i, shape |-> s] : s \in Around(<<Slots(o)>>)}
        \cup {[op |-> "scatter", i |-> i, shape |-> s] : s \in Around(<<Rows(o), Npe(o)>>)}
    [] o.kind = "space" ->
        {[op |-> "function", i |-> i, value |-> "scalar", open |-> FALSE, shape |-> s] : s \in Around(Expected(o, "scalar"))}
        \cup {[op |-> "function", i |-> i, value |-> "vector", open |-> FALSE, shape |-> s] :
                s \in {Expected(o, "vector"), Expected(o, "scalar")}}
        \cup {[op |-> "function", i |-> i, value |-> "scalar", open |-> TRUE, shape |-> <<>>]}
        \cup {[op |-> "covector", i |-> i, value |-> v, open |-> k] : v \in {"scalar", "vector"}, k \in 0..2}
    [] o.kind = "function" ->
        {[op |-> "integrate", i |-> i, form |-> f] : f \in {"square", "gradient"}}
    [] OTHER -> {}
Latest(k) == LET S == {i \in DOMAIN objs : objs[i].kind = k} IN
  IF S = {} THEN {} ELSE {CHOOSE i \in S : \A j \in S : j <= i}

Init == objs = <<>> /\ calls = <<>> /\ bad = 0
Do(c) ==
  /\ calls' = Append(calls, c)
  /\ \E r \in {Call(objs, c)} :
       /\ bad' = IF r.ok THEN bad ELSE bad + 1
       /\ bad' <= Mistakes
       /\ objs' = IF r.ok THEN Append(objs, r.o) ELSE objs
Start == calls = <<>> /\ \E c \in {c \in First : Sensible(c)} : Do(c)
Step == /\ calls # <<>> /\ Len(calls) < MaxCalls
        /\ \E i \in UNION {Latest(k) : k \in {"premesh", "mesh", "space", "function"}} :
             \E c \in Later(objs[i], i) : Do(c)
Next == Start \/ Step
Spec == Init /\ [][Next]_vars

(* objects stay as they are                                                    *)
Kept == [][\A i \in DOMAIN objs : i \in DOMAIN objs' /\ objs'[i] = objs[i]]_vars
Meshes_ == {i \in DOMAIN objs : objs[i].kind = "mesh"}
RECURSIVE SumOver(_, _)
SumOver(f, S) == IF S = {} THEN 0 ELSE LET o == CHOOSE o \in S : TRUE IN f[o] + SumOver(f, S \ {o})
(* the sizes are the ones of grids                                              *)
Sizes == \A i \in DOMAIN objs : \A o \in {objs[i]} : o.kind = "premesh" =>
  /\ Cardinality(NodesOf(o, Els(o))) =
       IF Continuous(o.type) THEN IPow(Wide(o) + 1, o.d) ELSE IPow(o.n, o.d) * Npe(o)
  /\ Continuous(o.type) => Cardinality(Dofs(o, NodesOf(o, Els(o)))) =
       IPow(Wide(o), Cardinality(o.per)) * IPow(Wide(o) + 1, o.d - Cardinality(o.per))
(* every element has one home, and no device holds two images of a node           *)
Homes == \A i \in Meshes_ : \A o \in {objs[i]} :
  /\ SumOver([p \in Devices(o) |-> Cardinality(Home(o, p))], Devices(o)) = Cardinality(Els(o))
  /\ o.parts # <<>> => \A p \in Devices(o) :
       Cardinality(Dofs(o, NodesOf(o, Home(o, p)))) = Cardinality(NodesOf(o, Home(o, p)))
(* what is complete can be finalized; discontinuous meshes always                *)
Ready == \A i \in DOMAIN objs : objs[i].kind = "premesh" =>
  /\ objs[i].parts = <<>> => Call(objs, [op |-> "finalize", i |-> i, axis |-> FALSE]).ok
  /\ ~Continuous(objs[i].type) => Call(objs, [op |-> "finalize", i |-> i, axis |-> TRUE]).ok
(* all objects of a history describe a mesh of as many elements                   *)
Same == \A i, j \in DOMAIN objs : "numbers" \notin {objs[i].kind, objs[j].kind} =>
  objs[i].d = objs[j].d /\ objs[i].n = objs[j].n
Emits == (Emit /\ Len(calls) = MaxCalls) => PrintT("CASE " \o ToJson([calls |-> calls]))
=============================================================================
