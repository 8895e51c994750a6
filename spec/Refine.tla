------------------------------- MODULE Refine -------------------------------
(***************************************************************************)
(* Refinement of a first order mesh to order N: elements are visited one    *)
(* after the other, facet by facet.  The first visit of a facet (named by   *)
(* the set of its vertices) creates its interior nodes, and remembers the   *)
(* orientation it was seen in; later visits reuse them, reordered by the    *)
(* symmetry relating both orientations.                                    *)
(*                                                                         *)
(* The property is stated independently: two grid points are the same node  *)
(* exactly if they are the same point of the same facet, where a point is   *)
(* the function giving the weights of the facet's vertices (RefineDef).     *)
(***************************************************************************)
EXTENDS RefineDef, Json

CONSTANTS Dim, N, Config, Few, Emit

VARIABLES mesh,    \* sequence of elements (vertices in lexicographic order)
          next,    \* element being refined
          todo,    \* its facets still to do
          table,   \* facet (set of vertices) -> [seen |-> orientation, ids |-> nodes]
          nodes,   \* number of nodes so far
          ref      \* refined elements: grid point -> node

vars == <<mesh, next, todo, table, nodes, ref>>

(* configurations: two elements sharing a facet, or a ring around an edge   *)
Stack == \* elements 0..2^d-1 and the next layer along axis 1
  LET half == IPow(2, Dim - 1)
      e1 == [k \in 1..IPow(2, Dim) |-> k - 1]
      e2 == [k \in 1..IPow(2, Dim) |-> k - 1 + half]
  IN  <<e1, e2>>
Ring2 == <<<<0, 1, 2, 3>>, <<0, 4, 1, 5>>, <<0, 2, 4, 6>>>>
Ring == IF Dim = 2 THEN Ring2
        ELSE [i \in 1..3 |-> [k \in 1..8 |-> IF k <= 4 THEN Ring2[i][k] ELSE Ring2[i][k - 4] + 7]]
Reoriented(e, g) == [k \in DOMAIN e |-> e[Orient(g, Dim, 2)[k] + 1]]

Init ==
  /\ IF Config = "stack"
     THEN \E g1, g2 \in Syms(Dim) :
            /\ (Dim < 3 \/ g1[2] = {})     \* symmetry reduction of the instance
            /\ (Few => g1[1] = [k \in 1..Dim |-> k])
            /\ mesh = <<Reoriented(Stack[1], g1), Reoriented(Stack[2], g2)>>
     ELSE \E g2, g3 \in Syms(Dim) :
            /\ (Dim < 3 \/ (g2[1] = g3[1] /\ g2[2] \subseteq {1, 2}))
            /\ (Few => g2[2] = {})
            /\ mesh = <<Ring[1], Reoriented(Ring[2], g2), Reoriented(Ring[3], g3)>>
  /\ next = 1 /\ todo = Facets(Dim) /\ table = <<>> /\ nodes = 0
  /\ ref = [e \in DOMAIN mesh |-> [m \in Grid(Dim, N + 1) |-> -1]]

Free(f) == {i \in 1..Dim : f[i] = 0}
Verts(e, f) == LET p == FacetNodes(f, 2) IN [k \in DOMAIN p |-> mesh[e][p[k] + 1]]
Inner(f) == InnerNodes(f, N + 1)

Put(e, f, ids) ==
  ref' = [ref EXCEPT ![e] = [m \in Grid(Dim, N + 1) |->
            IF Inside(m, f, N + 1)
            THEN ids[CHOOSE k \in DOMAIN Inner(f) : Inner(f)[k] = FlatOf(m, N + 1)]
            ELSE @[m]]]

Facet(f) ==
  /\ f \in todo /\ todo' = todo \ {f}
  /\ LET v == Verts(next, f)
         key == {v[k] : k \in DOMAIN v}
         fd == FacetDim(f)
         fresh == [k \in 1..Len(Inner(f)) |-> nodes + k - 1]
     IN  IF key \notin DOMAIN table
         THEN /\ table' = (key :> [seen |-> v, ids |-> fresh]) @@ table
              /\ nodes' = nodes + Len(fresh)
              /\ Put(next, f, fresh)
         ELSE /\ LET old == table[key]
                     rel == [k \in DOMAIN v |-> (CHOOSE j \in DOMAIN old.seen : old.seen[j] = v[k]) - 1]
                     g == CHOOSE g \in Syms(fd) : Orient(g, fd, 2) = rel
                 IN  Put(next, f, IF fd = 0 THEN old.ids
                                  ELSE Reorder(old.ids, Orient(g, fd, N - 1)))
              /\ UNCHANGED <<table, nodes>>
  /\ UNCHANGED <<mesh, next>>

Advance == /\ todo = {} /\ next < Len(mesh)
           /\ next' = next + 1 /\ todo' = Facets(Dim)
           /\ UNCHANGED <<mesh, table, nodes, ref>>

(* Facets of one element are independent: taking them in one order suffices *)
Next == Advance \/ \E f \in todo : f = (CHOOSE g \in todo : TRUE) /\ Facet(f)
Spec == Init /\ [][Next]_vars

Done == next = Len(mesh) /\ todo = {}
Occ == UNION {{e} \X Grid(Dim, N + 1) : e \in DOMAIN mesh}
Conforming ==
  Done => LET key == TLCEval([o \in Occ |-> PointKey(mesh[o[1]], o[2], N)])
              id(o) == ref[o[1]][o[2]]
              pairs == TLCEval({<<key[o], id(o)>> : o \in Occ})
          IN  /\ Cardinality(pairs) = Cardinality({p[1] : p \in pairs})
              /\ Cardinality(pairs) = Cardinality({p[2] : p \in pairs})
              /\ {p[2] : p \in pairs} = 0..(nodes - 1)
Emitted == (Emit /\ Done) => PrintT("CASE " \o ToJson([elements |-> mesh, order |-> N, ndim |-> Dim, count |-> nodes]))
Inv == Conforming /\ Emitted
=============================================================================
