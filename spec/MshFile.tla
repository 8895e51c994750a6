------------------------------- MODULE MshFile -------------------------------
(***************************************************************************)
(* A writer puts a rectangle of W x H quadrilaterals, periodic in some       *)
(* directions, into a mesh file: cells start at any corner and may be        *)
(* traversed either way, facets in either direction, periodic entities in    *)
(* either order and direction, mixed with entities of points.  A reader goes *)
(* over the file section by section.  What it has in the end is the          *)
(* rectangle with its opposite sides linked by translation.                  *)
(***************************************************************************)
EXTENDS MshDef, Json

CONSTANTS W, H, Emit
VARIABLES file, pc, elements, links

vars == <<file, pc, elements, links>>
Node(i, j) == i * (H + 1) + j
Pos(x) == <<x \div (H + 1), x % (H + 1)>>
Turn(c, r, m) == [k \in 1..4 |-> c[1 + (((IF m THEN 4 - k ELSE k) + r) % 4)]]
Quad(i, j) == <<Node(i, j), Node(i + 1, j), Node(i + 1, j + 1), Node(i, j + 1)>>
Side(a, s) == IF a = 1 THEN [j \in 1..(H + 1) |-> Node(IF s = 0 THEN 0 ELSE W, j - 1)]
              ELSE [i \in 1..(W + 1) |-> Node(i - 1, IF s = 0 THEN 0 ELSE H)]
SideFacets(a, s) == [k \in 1..(Len(Side(a, s)) - 1) |-> <<Side(a, s)[k], Side(a, s)[k + 1]>>]
Entity(a, s) == <<1, [k \in 1..Len(Side(a, s)) |-> <<Side(a, s)[k], Side(a, 1 - s)[k]>>]>>
Points(a) == <<0, <<<<Side(a, 0)[1], Side(a, 1)[1]>>>>>>
Rev(f, b) == IF b THEN <<f[2], f[1]>> ELSE f

(* "0": written as is; a file of the emitted family *)
Init ==
  \E r \in 0..3 : \E m, fr, two \in BOOLEAN : \E dirs \in SUBSET {1, 2} : \E s \in [1..2 -> {0, 1}] :
  \E swap \in BOOLEAN :
    /\ (dirs = {} => s = [a \in 1..2 |-> 0]) /\ (swap => dirs = {1, 2})
    /\ \A a \in {1, 2} \ dirs : s[a] = 0
    /\ file = [ndim |-> 2,
               cells |-> [k \in 1..(W * H) |-> LET q == Quad((k - 1) \div H, ((k - 1) % H))
                                               IN IF k = 1 \/ two THEN Turn(q, r, m) ELSE q],
               facets |-> LET all == SideFacets(1, 0) \o SideFacets(1, 1) \o SideFacets(2, 0) \o SideFacets(2, 1)
                          IN  [k \in DOMAIN all |-> Rev(all[k], fr /\ k % 2 = 1)],
               periodic |-> LET e(a) == IF a \in dirs THEN <<Points(a), Entity(a, s[a])>> ELSE <<>>
                            IN  IF swap THEN e(2) \o e(1) ELSE e(1) \o e(2)]
    /\ pc = <<1, 1>> /\ elements = {} /\ links = {}

ReadCell ==
  /\ pc[1] = 1
  /\ elements' = elements \cup {Lexicographic(file.cells[pc[2]], 2)}
  /\ pc' = IF pc[2] < Len(file.cells) THEN <<1, pc[2] + 1>>
           ELSE IF file.periodic = <<>> THEN <<3, 1>> ELSE <<2, 1>>
  /\ UNCHANGED <<file, links>>
ReadPeriodic ==
  /\ pc[1] = 2
  /\ links' = links \cup ExpectedLinks(file.facets, <<file.periodic[pc[2]]>>, 2)
  /\ pc' = IF pc[2] < Len(file.periodic) THEN <<2, pc[2] + 1>> ELSE <<3, 1>>
  /\ UNCHANGED <<file, elements>>
Next == ReadCell \/ ReadPeriodic
Spec == Init /\ [][Next]_vars

(* the elements are the quadrilaterals, their corners in lexicographic order
   along some pair of axes: opposite corners differ in both coordinates     *)
IsElement(e) == /\ \E i \in 0..(W - 1), j \in 0..(H - 1) : SetOf(e) = SetOf(Quad(i, j))
                /\ \A p, q \in {<<1, 4>>, <<2, 3>>} :
                     Pos(e[p[1]])[1] # Pos(e[p[2]])[1] /\ Pos(e[p[1]])[2] # Pos(e[p[2]])[2]
Dirs == {a \in {1, 2} : \E i \in DOMAIN file.periodic : file.periodic[i] \in {Entity(a, 0), Entity(a, 1)}}
Translated(l) == \E a \in Dirs : \A k \in DOMAIN l[1] :
                   LET x == Pos(l[1][k])
                       y == Pos(l[2][k])
                   IN  {x[a], y[a]} = {0, IF a = 1 THEN W ELSE H} /\ x[3 - a] = y[3 - a]
Inv == pc[1] = 3 =>
  /\ Cardinality(elements) = W * H /\ \A e \in elements : IsElement(e)
  /\ \A l \in links : Translated(l)
  /\ Cardinality(links) = (IF 1 \in Dirs THEN H ELSE 0) + (IF 2 \in Dirs THEN W ELSE 0)
  /\ (Emit => PrintT("CASE " \o ToJson(file)))
=============================================================================
