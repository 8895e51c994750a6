------------------------------ MODULE Partition ------------------------------
(***************************************************************************)
(* Distribution of the elements of a box of Shape elements (some of them     *)
(* possibly missing) over K partitions.  Elements are neighbours when they   *)
(* share a node.  A partitioner moves elements between partitions, one at a  *)
(* time, never away from balance, as long as this does not make the cut      *)
(* larger; Best is the least cut of any balanced distribution: the bound     *)
(* against which a recorded partition is judged.                            *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS W, H, K, Holes, Emit
VARIABLES elems, part, best

vars == <<elems, part, best>>
Abs(x) == IF x < 0 THEN -x ELSE x
All == (0..(W - 1)) \X (0..(H - 1))
Near(e, f) == e # f /\ Abs(e[1] - f[1]) <= 1 /\ Abs(e[2] - f[2]) <= 1
Edges(E) == {p \in SUBSET E : Cardinality(p) = 2 /\ \A x, y \in p : x # y => Near(x, y)}
Cut(E, p) == Cardinality({x \in E \X E : Near(x[1], x[2]) /\ p[x[1]] # p[x[2]]}) \div 2
Size(E, p, k) == Cardinality({e \in E : p[e] = k})
Ceil(n, k) == (n + k - 1) \div k
Balanced(E, p) == \A k \in 0..(K - 1) : /\ Size(E, p, k) <= Ceil(Cardinality(E), K)
                                        /\ Size(E, p, k) >= Cardinality(E) \div K
Best(E) == LET cuts == {Cut(E, p) : p \in {q \in [E -> 0..(K - 1)] : Balanced(E, q)}}
           IN CHOOSE c \in cuts : \A x \in cuts : c <= x
Init == /\ elems \in {All} \cup {All \ {e} : e \in IF Holes THEN All ELSE {}}
        /\ best = Best(elems)
        /\ part = CHOOSE p \in [elems -> 0..(K - 1)] : Balanced(elems, p)
(* exchange of two elements keeps the sizes *)
Next == /\ \E a, b \in elems :
             /\ part[a] < part[b]
             /\ part' = [part EXCEPT ![a] = part[b], ![b] = part[a]]
             /\ Cut(elems, part') <= Cut(elems, part)
        /\ UNCHANGED <<elems, best>>
Spec == Init /\ [][Next]_vars
Inv == /\ Balanced(elems, part) /\ Cut(elems, part) >= best
       /\ (Emit /\ Cut(elems, part) = best =>
             PrintT("CASE " \o ToJson([cells |-> elems, k |-> K, best |-> best])))
=============================================================================
