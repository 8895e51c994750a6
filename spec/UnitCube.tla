------------------------------ MODULE UnitCube ------------------------------
(***************************************************************************)
(* A walker on the uniform mesh of a cube: it stands in an element, and a    *)
(* step crosses one of its facets, into the element sharing the facet, or    *)
(* through a periodic link into the element at the other end.  The mesh is   *)
(* given by UnitCubeDef (elements, links, boundary as sets of grid           *)
(* positions); the walker shows that it is a box, closed up in exactly the   *)
(* periodic directions.                                                     *)
(***************************************************************************)
EXTENDS UnitCubeDef, Json

CONSTANTS MaxDim, MaxN, Emit

VARIABLES d, n, per, at, off   \* off: the element the walker would be in on the unrolled mesh

vars == <<d, n, per, at, off>>
Init == /\ d \in 1..MaxDim /\ n \in 1..MaxN /\ per \in SUBSET (1..d)
        /\ at = [i \in 1..d |-> 0] /\ off = at

Next ==
  \E a \in 1..d : \E s \in {0, 1} :
    LET f == FacetOf(at, a, s)
        step == IF s = 1 THEN 1 ELSE -1
        here == {e \in Elements(d, n) \ {at} : f \subseteq Corners(e)}
        through == {l \in Links(d, n, per) : f \in {SetOf(l[1]), SetOf(l[2])}}
        other(l) == IF SetOf(l[1]) = f THEN SetOf(l[2]) ELSE SetOf(l[1])
    IN  /\ off[a] + step \in -n..(2 * n - 1)
        /\ \/ here # {} /\ at' = CHOOSE e \in here : TRUE
           \/ /\ here = {} /\ through # {}
              /\ at' = CHOOSE e \in Elements(d, n) :
                         other(CHOOSE l \in through : TRUE) \subseteq Corners(e)
        /\ off' = [off EXCEPT ![a] = @ + step]
        /\ UNCHANGED <<d, n, per>>
Spec == Init /\ [][Next]_vars

(* every facet of an element is of exactly one kind, and the walker is where
   the unrolled mesh says                                                   *)
Trichotomy ==
  \A a \in 1..d : \A s \in {0, 1} :
    LET f == FacetOf(at, a, s)
        k1 == Cardinality({e \in Elements(d, n) \ {at} : f \subseteq Corners(e)})
        k2 == Cardinality({l \in Links(d, n, per) : f \in {SetOf(l[1]), SetOf(l[2])}})
        k3 == Cardinality({b \in Boundary(d, n, per) : b = f})
    IN  k1 + k2 + k3 = 1
        /\ (a \in per => k3 = 0)
Position == \A i \in 1..d : at[i] = off[i] % n /\ (i \notin per => at[i] = off[i])
Inv == /\ Trichotomy /\ Position
       /\ (Emit /\ off = [i \in 1..d |-> 0]
           => PrintT("CASE " \o ToJson([d |-> d, n |-> n, per |-> per])))
=============================================================================
