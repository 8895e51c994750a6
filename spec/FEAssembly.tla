------------------------------ MODULE FEAssembly ------------------------------
(***************************************************************************)
(* Assembling mass and stiffness matrices of a 2 x 2 mesh of bilinear        *)
(* elements, element by element in any order, with the inner node (and one   *)
(* boundary node) anywhere.  Numbers are exact; the rule is Lobatto's        *)
(* (Simpson's), rational.                                                   *)
(***************************************************************************)
EXTENDS FESmall
CONSTANTS Shifts, Emit          \* displacements of the nodes, in 64ths + 32
VARIABLES cx, cy, by, done, M, S

m == [cx |-> cx, cy |-> cy, by |-> by]
Coord(i) == CoordAt(m, i)
X(e) == XAt(m, e)
Zero == ZeroMatrix

Init == /\ cx \in Shifts /\ cy \in Shifts /\ by \in Shifts
        /\ done = {} /\ M = Zero /\ S = Zero
Next == \E e \in (1..4) \ done :
          /\ done' = done \cup {e}
          /\ M' = MAdd(M, Contribution(m, e, "mass"))
          /\ S' = MAdd(S, Contribution(m, e, "stiffness"))
          /\ UNCHANGED <<cx, cy, by>>
Spec == Init /\ [][Next]_<<cx, cy, by, done, M, S>>

(* twice the area of an element by its corners                              *)
Shoelace(e) == LET p == X(e) IN
  (p[1][1] - p[4][1]) * (p[3][2] - p[2][2]) - (p[3][1] - p[2][1]) * (p[1][2] - p[4][2])
RECURSIVE SumOver(_)
SumOver(D) == IF D = {} THEN 0 ELSE LET e == CHOOSE e \in D : TRUE IN Shoelace(e) + SumOver(D \ {e})
Abs(x) == IF x < 0 THEN -x ELSE x
All(A) == VSum([i \in Nodes |-> VSum(A[i])])
Tiny == "1p-100"
Equal(a, b) == RNear(a, b, Tiny)

Symmetric == \A i, j \in Nodes : Equal(M[i][j], M[j][i]) /\ Equal(S[i][j], S[j][i])
Area == Equal(All(M), RDiv(Abs(SumOver(done)), 2))
ConstantsInKernel == \A i \in Nodes : Equal(VSum(S[i]), 0)
(* x and y are harmonic: no load at the inner node once it is surrounded    *)
LinearsHarmonic == done = 1..4 =>
  \A a \in 1..2 : Equal(VDot(S[5], [j \in Nodes |-> Coord(j)[a]]), 0)
(* sum_ij x_i S_ij x_j = integral of |grad x|^2 = area                      *)
Energy == \A a, b \in 1..2 :
  Equal(VSum([i \in Nodes |-> RMul(Coord(i)[a], VDot(S[i], [j \in Nodes |-> Coord(j)[b]]))]),
        IF a = b THEN RDiv(Abs(SumOver(done)), 2) ELSE 0)
WholeArea == done = 1..4 => Equal(All(M), 16384)

Inv == /\ Symmetric /\ Area /\ ConstantsInKernel /\ LinearsHarmonic /\ Energy /\ WholeArea
       /\ (Emit /\ done = 1..4 =>
             PrintT("CASE " \o ToJson(CaseMesh(m))))
=============================================================================
