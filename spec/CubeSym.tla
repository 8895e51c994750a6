------------------------------- MODULE CubeSym -------------------------------
(***************************************************************************)
(* An element seen in changing orientations.  The state is how its vertices *)
(* and the nodes of its order n-1 refinement appear; a step reverses an     *)
(* axis or swaps two axes of what is seen.  The orderings reached are all   *)
(* 2^d d! symmetries, and the appearance of the vertices determines that of *)
(* all nodes: this is what a table from vertex orderings to node orderings  *)
(* relies on.                                                              *)
(***************************************************************************)
EXTENDS Cube, Json

CONSTANTS MaxDim, MaxPoints, Emit

VARIABLES d, n, verts, nodes

vars == <<d, n, verts, nodes>>

Ident(dd, nn) == [k \in 1..IPow(nn, dd) |-> k - 1]
Init == /\ d \in 1..MaxDim /\ n \in 1..MaxPoints
        /\ verts = Ident(d, 2) /\ nodes = Ident(d, n)

FlipG(i) == <<[k \in 1..d |-> k], {i}>>
SwapG(i, j) == <<[k \in 1..d |-> IF k = i THEN j ELSE IF k = j THEN i ELSE k], {}>>
See(g) == /\ verts' = Reorder(verts, Orient(g, d, 2))
          /\ nodes' = Reorder(nodes, Orient(g, d, n))
          /\ UNCHANGED <<d, n>>
Next == \/ \E i \in 1..d : See(FlipG(i))
        \/ \E i, j \in 1..d : i < j /\ See(SwapG(i, j))
Spec == Init /\ [][Next]_vars

(* the symmetry that explains the state *)
Explained == \E g \in Syms(d) : verts = Orient(g, d, 2) /\ nodes = Orient(g, d, n)
(* ... is unique given the vertices alone *)
Determined == \A g \in Syms(d) : verts = Orient(g, d, 2) => nodes = Orient(g, d, n)
(* and vertices of the refinement appear where the vertices do (n >= 2)     *)
Corner(v) == FlatOf([i \in 1..d |-> (n - 1) * Multi(v, d, 2)[i]], n)
CornersAgree == n >= 2 => \A v \in 0..(IPow(2, d) - 1) :
                   nodes[Corner(v) + 1] = Corner(verts[v + 1])
Inv == /\ Explained /\ Determined /\ CornersAgree
       /\ (Emit => PrintT("CASE " \o ToJson([kind |-> "lookup", d |-> d, n |-> n,
                                             key |-> verts, value |-> nodes])))
(* the facets' interiors partition the nodes *)
ASSUME \A dd \in 1..3 : \A nn \in 2..4 : \A m \in Grid(dd, nn) :
         Cardinality({f \in Facets(dd) : Inside(m, f, nn)}) = 1
ASSUME \A dd \in 1..3 : Cardinality(Syms(dd)) = IPow(2, dd) * (CASE dd = 1 -> 1 [] dd = 2 -> 2 [] OTHER -> 6)
=============================================================================
