------------------------------ MODULE RefineDef ------------------------------
(***************************************************************************)
(* Which points of the refined elements are the same point of the mesh.     *)
(* A grid point of an element is a combination of the element's vertices;   *)
(* its weight of a vertex is, up to a factor, the product of i or N - i      *)
(* over the axes (grid points being placed symmetrically).  The weights of  *)
(* the vertices of the facet that it lies on identify it.                   *)
(***************************************************************************)
EXTENDS Cube

RECURSIVE Weight(_, _, _, _)
Weight(b, m, N, i) ==  \* b: corner multi-index, m: grid point
  IF i = 0 THEN 1
  ELSE (IF b[i] = 1 THEN m[i] ELSE N - m[i]) * Weight(b, m, N, i - 1)

PointKey(elem, m, N) ==
  LET d == Len(m)
  IN  {w \in {<<elem[k], Weight(Multi(k - 1, d, 2), m, N, d)>> : k \in DOMAIN elem} : w[2] # 0}
=============================================================================
