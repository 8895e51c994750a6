-------------------------------- MODULE FEDef --------------------------------
(***************************************************************************)
(* Isoparametric finite elements on tensor-product elements, exactly.       *)
(* A mesh is a sequence of elements, an element the sequence of coordinates *)
(* of its nodes (lexicographic).  xs: grid nodes, es/ws: quadrature nodes   *)
(* and weights on [-1, 1].  All of it at the quadrature points ("q").       *)
(***************************************************************************)
EXTENDS Poly, Cube

(* reference basis: [v |-> phi[q][k], g |-> dphi[q][k][a]] and weights w[q]  *)
RefBasis(d, xs, es, ws) ==
  LET n == Len(xs)
      m == Len(es)
      L == LagMatrix(xs, es)
      D == DLagMatrix(xs, es)
      Q == IPow(m, d)
      K == IPow(n, d)
      mq == Force([q \in 1..Q |-> Multi(q - 1, d, m)])
      mk == Force([k \in 1..K |-> Multi(k - 1, d, n)])
  IN  Force([v |-> [q \in 1..Q |-> [k \in 1..K |->
                 VProd([i \in 1..d |-> L[mq[q][i] + 1][mk[k][i] + 1]])]],
       g |-> [q \in 1..Q |-> [k \in 1..K |-> [a \in 1..d |->
                 VProd([i \in 1..d |-> IF i = a THEN D[mq[q][i] + 1][mk[k][i] + 1]
                                       ELSE L[mq[q][i] + 1][mk[k][i] + 1]])]]],
       w |-> [q \in 1..Q |-> VProd([i \in 1..d |-> ws[mq[q][i] + 1]])]])

Minor2(a, b, c, e) == RSub(RMul(a, e), RMul(b, c))
Det(J) == CASE Len(J) = 1 -> J[1][1]
            [] Len(J) = 2 -> Minor2(J[1][1], J[1][2], J[2][1], J[2][2])
            [] OTHER -> RAdd(RSub(
                 RMul(J[1][1], Minor2(J[2][2], J[2][3], J[3][2], J[3][3])),
                 RMul(J[1][2], Minor2(J[2][1], J[2][3], J[3][1], J[3][3]))),
                 RMul(J[1][3], Minor2(J[2][1], J[2][2], J[3][1], J[3][2])))
(* cofactor of entry (i, j)                                                 *)
Cof(J, i, j) ==
  LET o(x) == IF x = 1 THEN 2 ELSE 1             \* the other one of two
      r(x) == (x % 3) + 1                        \* the next one of three
      s(x) == ((x + 1) % 3) + 1
  IN  CASE Len(J) = 1 -> "1"
        [] Len(J) = 2 -> IF i = j THEN J[o(i)][o(j)] ELSE RNeg(J[o(i)][o(j)])
        [] OTHER -> Minor2(J[r(i)][r(j)], J[r(i)][s(j)], J[s(i)][r(j)], J[s(i)][s(j)])
Inverse(J) == LET D == Det(J) IN
  [i \in DOMAIN J |-> [j \in DOMAIN J |-> RRound(RDiv(Cof(J, j, i), D), 160)]]

(* Geometry of one element: coordinates x[q], jacobian det[q], its inverse,  *)
(* and physical gradients g[q][k] of the basis.  J[i][j] = d x_j / d xi_i.   *)
Element(B, X) ==
  LET d == Len(X[1])
      K == Len(X)
      Q == Len(B.w)
      C == Force([j \in 1..d |-> [k \in 1..K |-> X[k][j]]])
      G == Force([q \in 1..Q |-> [i \in 1..d |-> [k \in 1..K |-> B.g[q][k][i]]]])
      J == Force([q \in 1..Q |-> [i \in 1..d |-> [j \in 1..d |-> RRound(VDot(G[q][i], C[j]), 160)]]])
      V == Force([q \in 1..Q |-> Inverse(J[q])])
  IN  Force([x |-> [q \in 1..Q |-> [j \in 1..d |-> RRound(VDot(B.v[q], C[j]), 160)]],
       jac |-> J, inv |-> V,
       det |-> [q \in 1..Q |-> RRound(Det(J[q]), 160)],
       g |-> [q \in 1..Q |-> [k \in 1..K |-> [j \in 1..d |-> RRound(VDot(B.g[q][k], V[q][j]), 160)]]]])

(* A function at a quadrature point: its value v and gradient g: scalars     *)
(* (v number, g[j]) or vectors (v[j], g[j][k] = d_j u_k).                    *)
ScalarAt(B, E, u, q) ==
  LET d == Len(E.x[q]) IN
  [v |-> VDot(B.v[q], u), g |-> [j \in 1..d |-> VDot([k \in DOMAIN u |-> E.g[q][k][j]], u)]]
VectorAt(B, E, u, q) ==
  LET d == Len(E.x[q])
      K == DOMAIN u
      c == [l \in 1..d |-> [k \in K |-> u[k][l]]]
  IN  [v |-> [l \in 1..d |-> VDot(B.v[q], c[l])],
       g |-> [j \in 1..d |-> [l \in 1..d |-> VDot([k \in K |-> E.g[q][k][j]], c[l])]]]
(* basis functions: scalar k, and component l of vector basis function k     *)
ScalarBasis(B, E, k, q) == [v |-> B.v[q][k], g |-> E.g[q][k]]
VectorBasis(B, E, k, l, q) ==
  LET d == Len(E.x[q]) IN
  [v |-> [c \in 1..d |-> IF c = l THEN B.v[q][k] ELSE "0"],
   g |-> [j \in 1..d |-> [c \in 1..d |-> IF c = l THEN E.g[q][k][j] ELSE "0"]]]
(* a polynomial of the coordinates: sequence of <<coefficient, exponents>>   *)
Mono(x, e) == VProd([i \in DOMAIN e |-> RPow(x[i], e[i])])
DMono(x, e, j) == IF e[j] = 0 THEN "0" ELSE RMul(e[j], Mono(x, [e EXCEPT ![j] = @ - 1]))
PolyAt(p, x) ==
  [v |-> VSum([t \in DOMAIN p |-> RMul(p[t][1], Mono(x, p[t][2]))]),
   g |-> [j \in DOMAIN x |-> VSum([t \in DOMAIN p |-> RMul(p[t][1], DMono(x, p[t][2], j))])]]
(* the same with all signs positive, as a scale for rounding errors          *)
RECURSIVE AbsAll(_, _)
AbsAll(a, depth) == IF depth = 0 THEN RAbs(a) ELSE [i \in DOMAIN a |-> AbsAll(a[i], depth - 1)]

(* Forms.  a: sequence of functions at a point; s = -1, or +1 for the scale  *)
Trace(m) == VSum([i \in DOMAIN m |-> m[i][i]])
Form(name, a, s) ==
  CASE name = "one"      -> "1"
    [] name = "value"    -> a[1].v
    [] name = "mass"     -> RMul(a[1].v, a[2].v)
    [] name = "stiffness"-> VDot(a[1].g, a[2].g)
    [] name = "vmass"    -> VDot(a[1].v, a[2].v)
    [] name = "vstiffness" -> VSum([j \in DOMAIN a[1].g |-> VDot(a[1].g[j], a[2].g[j])])
    [] name = "strain"   -> VSum([j \in DOMAIN a[1].g |-> VDot(a[1].g[j], [k \in DOMAIN a[2].g |-> a[2].g[k][j]])])
    [] name = "div"      -> RMul(Trace(a[1].g), a[2].v)
    [] name = "convection" -> RMul(VDot(a[1].v, a[2].g), a[3].v)
    [] name = "vconvection" -> VSum([j \in DOMAIN a[1].v |-> RMul(a[1].v[j], VDot(a[2].g[j], a[3].v))])
    [] name = "weighted" -> RMul(RMul(a[1].v, a[2].v), a[3].v)
    [] name = "derivative" -> RMul(a[1].g[1], a[2].v)
    [] name = "curl"     -> RMul(RAdd(a[1].g[1][2], RMul(s, a[1].g[2][1])), a[2].v)
    [] OTHER -> "nan"
=============================================================================
