----------------------------- MODULE UnitCubeDef -----------------------------
(* The uniform mesh of n^d elements, in terms of grid positions.            *)
EXTENDS Cube

SetOf(s) == {s[i] : i \in DOMAIN s}
Elements(d, n) == Grid(d, n)
ElemNodes(e) == LET d == Len(e) IN       \* in lexicographic order
  [k \in 1..IPow(2, d) |-> [i \in 1..d |-> e[i] + Multi(k - 1, d, 2)[i]]]
Corners(e) == SetOf(ElemNodes(e))
FacetOf(e, a, s) == {x \in Corners(e) : x[a] = e[a] + s}

(* the facet of the side x[a] = at with tangential element position e       *)
SideFacet(e, a, at) == LET d == Len(e) IN
  LET k2 == IPow(2, d - 1)
      tang(i) == IF i < a THEN i ELSE i - 1
  IN  [k \in 1..k2 |-> [i \in 1..d |-> IF i = a THEN at
                                       ELSE e[i] + Multi(k - 1, d - 1, 2)[tang(i)]]]
SideElems(d, n, a) == {e \in Grid(d, n) : e[a] = 0}
Links(d, n, per) == UNION {{<<SideFacet(e, a, 0), SideFacet(e, a, n)>> :
                               e \in SideElems(d, n, a)} : a \in per}
Boundary(d, n, per) == UNION {{SetOf(SideFacet(e, a, at)) : e \in SideElems(d, n, a), at \in {0, n}}
                                : a \in (1..d) \ per}
=============================================================================
