------------------------------- MODULE MshDef -------------------------------
(* The node order of Gmsh: a loop around the bottom, then around the top.   *)
EXTENDS Cube

Loop2 == <<<<0, 0>>, <<1, 0>>, <<1, 1>>, <<0, 1>>>>
GmshCorner(d) ==
  CASE d = 1 -> <<<<0>>, <<1>>>>
    [] d = 2 -> Loop2
    [] d = 3 -> [k \in 1..8 |-> IF k <= 4 THEN Loop2[k] \o <<0>> ELSE Loop2[k - 4] \o <<1>>]
(* the cell in lexicographic order *)
Lexicographic(cell, d) ==
  [p \in 1..IPow(2, d) |-> cell[CHOOSE k \in DOMAIN cell : GmshCorner(d)[k] = Multi(p - 1, d, 2)]]

SetOf(s) == {s[i] : i \in DOMAIN s}
(* a link as a set of pairs of nodes, together with the order of its facets *)
PairMap(pairs) == [x \in {p[1] : p \in SetOf(pairs)} |-> (CHOOSE p \in SetOf(pairs) : p[1] = x)[2]]
ExpectedLinks(facets, periodic, d) ==
  UNION {LET m == PairMap(periodic[i][2])
         IN {LET f == Lexicographic(facets[j], d - 1)
             IN <<f, [k \in DOMAIN f |-> m[f[k]]]>> :
               j \in {j \in DOMAIN facets : SetOf(facets[j]) \subseteq DOMAIN m}}
         : i \in {i \in DOMAIN periodic : periodic[i][1] = d - 1}}
=============================================================================
