------------------------------- MODULE FESmall -------------------------------
(* A 2 x 2 mesh of bilinear elements on [0, 128]^2 with movable nodes, its   *)
(* exact element matrices.  m: [cx, cy, by] (displacements plus 32).        *)
EXTENDS FEDef, Json

Nodes == 1..9
Elems == <<<<1, 2, 4, 5>>, <<2, 3, 5, 6>>, <<4, 5, 7, 8>>, <<5, 6, 8, 9>>>>
CoordAt(m, i) == CASE i = 5 -> <<64 + m.cx - 32, 64 + m.cy - 32>>
                   [] i = 2 -> <<0, 64 + m.by - 32>>
                   [] OTHER -> <<((i - 1) \div 3) * 64, ((i - 1) % 3) * 64>>
XAt(m, e) == [k \in 1..4 |-> CoordAt(m, Elems[e][k])]
Simpson == Force(RefBasis(2, <<-1, 1>>, <<-1, 0, 1>>, <<"1/3", "4/3", "1/3">>))

ZeroMatrix == [i \in Nodes |-> [j \in Nodes |-> "0"]]
Loc(e, i) == IF \E k \in 1..4 : Elems[e][k] = i THEN CHOOSE k \in 1..4 : Elems[e][k] = i ELSE 0
Contribution(m, e, form) ==
  LET B == Simpson
      E == Element(B, Force(XAt(m, e)))
      L == Force([i \in 1..4 |-> [j \in 1..4 |-> VSum([q \in 1..9 |->
             RMul(RMul(B.w[q], E.det[q]),
                  Form(form, <<ScalarBasis(B, E, i, q), ScalarBasis(B, E, j, q)>>, -1))])]])
  IN  [i \in Nodes |-> [j \in Nodes |->
         IF Loc(e, i) = 0 \/ Loc(e, j) = 0 THEN "0" ELSE L[Loc(e, i)][Loc(e, j)]]]
MAdd(A, C) == Force([i \in Nodes |-> VAdd(A[i], C[i])])
CaseMesh(m) == [d |-> 2, coords |-> [i \in Nodes |-> CoordAt(m, i)],
                elements |-> [e \in 1..4 |-> [k \in 1..4 |-> Elems[e][k] - 1]]]
=============================================================================
