------------------------------ MODULE StokesDef ------------------------------
(***************************************************************************)
(* The operators of the spectral element Stokes discretisation, exactly.    *)
(* Velocity: continuous, on Gauss-Lobatto nodes xs which are also its        *)
(* quadrature nodes (weights ws).  Pressure: on Gauss-Legendre nodes ps,     *)
(* element by element.  Convection is integrated on the finer os, ow.       *)
(* g: the recorded grid [d, xs, ws, ps, os, ow, low, vel, pel, vcoords,      *)
(* vclass, pclass, fixed]; elements hold 0-based node numbers.              *)
(***************************************************************************)
EXTENDS FEDef, TimeScheme

Range0(n) == 1..n
(* occurrences <<e, k>> of every node                                       *)
Where(el, n) == Force([i \in 1..n |->
   SelectSeq([o \in 1..(Len(el) * Len(el[1])) |->
                <<((o - 1) \div Len(el[1])) + 1, ((o - 1) % Len(el[1])) + 1>>],
             LAMBDA o : el[o[1]][o[2]] + 1 = i)])
Classes(c) == Force([i \in DOMAIN c |-> SelectSeq([j \in DOMAIN c |-> j], LAMBDA j : c[j] = c[i])])

Space(g) ==
  LET d == g.d
      B == RefBasis(d, g.xs, g.xs, g.ws)
      O == RefBasis(d, g.xs, g.os, g.ow)
      P == RefBasis(d, g.ps, g.xs, g.ws)
      X == Force([e \in DOMAIN g.vel |-> [k \in DOMAIN g.vel[e] |-> g.vcoords[g.vel[e][k] + 1]]])
      E == Force([e \in DOMAIN X |-> Element(B, X[e])])
      EO == Force([e \in DOMAIN X |-> Element(O, X[e])])
  IN  Force([d |-> d, B |-> B, O |-> O, P |-> P, E |-> E, EO |-> EO,
       W |-> [e \in DOMAIN X |-> [q \in DOMAIN B.w |-> RMul(B.w[q], E[e].det[q])]],
       WO |-> [e \in DOMAIN X |-> [q \in DOMAIN O.w |-> RMul(O.w[q], EO[e].det[q])]],
       vel |-> g.vel, pel |-> g.pel,
       vat |-> Where(g.vel, Len(g.vcoords)), pat |-> Where(g.pel, g.pnodes),
       vcls |-> Classes(g.vclass), pcls |-> Classes(g.pclass),
       free |-> [i \in DOMAIN g.vcoords |-> IF (i - 1) \in {g.fixed[j] : j \in DOMAIN g.fixed} THEN 0 ELSE 1],
       dn |-> LagMatrix(g.xs, g.low), up |-> LagMatrix(g.low, g.xs)])

Loc(el, u) == Force([e \in DOMAIN el |-> [k \in DOMAIN el[e] |-> u[el[e][k] + 1]]])
ScatterV(S, loc) == Force([i \in DOMAIN S.vat |-> [l \in 1..S.d |->
   RRound(VSum([o \in DOMAIN S.vat[i] |-> loc[S.vat[i][o][1]][S.vat[i][o][2]][l]]), 160)]])
ScatterP(S, loc) == Force([i \in DOMAIN S.pat |->
   RRound(VSum([o \in DOMAIN S.pat[i] |-> loc[S.pat[i][o][1]][S.pat[i][o][2]]]), 160)])
ExchangeV(S, u) == Force([i \in DOMAIN u |-> [l \in 1..S.d |->
   VSum([j \in DOMAIN S.vcls[i] |-> u[S.vcls[i][j]][l]])]])
ExchangeP(S, p) == Force([i \in DOMAIN p |-> VSum([j \in DOMAIN S.pcls[i] |-> p[S.pcls[i][j]]])])
Mask(S, u) == Force([i \in DOMAIN u |-> [l \in 1..S.d |-> IF S.free[i] = 1 THEN u[i][l] ELSE "0"]])

(* component l of local nodal values                                        *)
Comp(u, l) == [k \in DOMAIN u |-> u[k][l]]
(* gradient table of element e at q: [j] over k                             *)
GradRow(E, q, j) == [k \in DOMAIN E.g[q] |-> E.g[q][k][j]]

MassDiag(S) == Force([i \in DOMAIN S.vat |->
   VSum([o \in DOMAIN S.vat[i] |-> S.W[S.vat[i][o][1]][S.vat[i][o][2]]])])
OpB(S, u) == LET m == MassDiag(S) IN Mask(S, [i \in DOMAIN u |-> [l \in 1..S.d |-> RMul(m[i], u[i][l])]])
OpBi(S, u) ==
  LET m == ExchangeP([pcls |-> S.vcls], MassDiag(S))
      v == ExchangeV(S, u)
  IN  Force([i \in DOMAIN u |-> [l \in 1..S.d |-> RRound(RDiv(v[i][l], m[i]), 160)]])
OpA(S, u) ==
  LET ul == Loc(S.vel, u)
      G == Force([e \in DOMAIN S.vel |-> [q \in DOMAIN S.W[e] |-> [j \in 1..S.d |-> [l \in 1..S.d |->
             RMul(S.W[e][q], VDot(GradRow(S.E[e], q, j), Comp(ul[e], l)))]]]])
      loc == Force([e \in DOMAIN S.vel |-> [k \in DOMAIN S.vel[e] |-> [l \in 1..S.d |->
             VSum([q \in DOMAIN S.W[e] |-> VSum([j \in 1..S.d |-> RMul(G[e][q][j][l], S.E[e].g[q][k][j])])])]]])
  IN  Mask(S, ScatterV(S, loc))
OpC(S, u) ==
  LET ul == Loc(S.vel, u)
      V == Force([e \in DOMAIN S.vel |-> [q \in DOMAIN S.WO[e] |-> [l \in 1..S.d |->
             VDot(S.O.v[q], Comp(ul[e], l))]]])
      N == Force([e \in DOMAIN S.vel |-> [q \in DOMAIN S.WO[e] |-> [l \in 1..S.d |->
             RMul(S.WO[e][q], VSum([j \in 1..S.d |->
                RMul(V[e][q][j], VDot(GradRow(S.EO[e], q, j), Comp(ul[e], l)))]))]]])
      loc == Force([e \in DOMAIN S.vel |-> [k \in DOMAIN S.vel[e] |-> [l \in 1..S.d |->
             VSum([q \in DOMAIN S.WO[e] |-> RMul(N[e][q][l], S.O.v[q][k])])]]])
  IN  Mask(S, ScatterV(S, loc))
DivAt(S, ul) == Force([e \in DOMAIN S.vel |-> [q \in DOMAIN S.W[e] |->
   VSum([j \in 1..S.d |-> VDot(GradRow(S.E[e], q, j), Comp(ul[e], j))])]])
OpD(S, u) ==
  LET dv == DivAt(S, Loc(S.vel, u))
      loc == Force([e \in DOMAIN S.pel |-> [k \in DOMAIN S.pel[e] |->
             VSum([q \in DOMAIN S.W[e] |-> RMul(RMul(S.W[e][q], dv[e][q]), S.P.v[q][k])])]])
  IN  ScatterP(S, loc)
OpDt(S, p) ==
  LET pl == Loc(S.pel, p)
      pq == Force([e \in DOMAIN S.pel |-> [q \in DOMAIN S.W[e] |-> RMul(S.W[e][q], VDot(S.P.v[q], pl[e]))]])
      loc == Force([e \in DOMAIN S.vel |-> [k \in DOMAIN S.vel[e] |-> [l \in 1..S.d |->
             VSum([q \in DOMAIN S.W[e] |-> RMul(pq[e][q], S.E[e].g[q][k][l])])]]])
  IN  Mask(S, ScatterV(S, loc))
OpPB(S, p) ==
  LET pl == Loc(S.pel, p)
      loc == Force([e \in DOMAIN S.pel |-> [k \in DOMAIN S.pel[e] |->
             VSum([q \in DOMAIN S.W[e] |-> RMul(RMul(S.W[e][q], VDot(S.P.v[q], pl[e])), S.P.v[q][k])])]])
  IN  ScatterP(S, loc)

VScaleV(c, u) == Force([i \in DOMAIN u |-> VScale(c, u[i])])
VAddV(u, v) == Force([i \in DOMAIN u |-> VAdd(u[i], v[i])])
VSubV(u, v) == Force([i \in DOMAIN u |-> VSub(u[i], v[i])])
DotV(u, v) == VSum([i \in DOMAIN u |-> VDot(u[i], v[i])])
MaxV(u) == VMaxAbs([i \in DOMAIN u |-> VMaxAbs(u[i])])

Beta(k) == Bdf(k)[k + 1]
OpQ(S, u, dt, k) == VScaleV(RDiv(dt, Beta(k)), OpBi(S, u))
OpE(S, p, dt, k) == OpD(S, OpQ(S, OpDt(S, p), dt, k))
OpH(S, u, mu, dt, k) == VAddV(VScaleV(RDiv(Beta(k), dt), OpB(S, u)), VScaleV(mu, OpA(S, u)))

(* interpolation to one degree less and back, in every element; averaged    *)
Project(S, u) ==
  LET d == S.d
      n == Len(S.up)
      K == IPow(n, d)
      Pm == Force([a \in 1..n |-> [b \in 1..n |-> VDot(S.up[a], [c \in DOMAIN S.dn |-> S.dn[c][b]])]])
      mk == Force([k \in 1..K |-> Multi(k - 1, d, n)])
      T == Force([k \in 1..K |-> [m \in 1..K |-> VProd([i \in 1..d |-> Pm[mk[k][i] + 1][mk[m][i] + 1]])]])
      ul == Loc(S.vel, u)
      loc == Force([e \in DOMAIN S.vel |-> [k \in 1..K |-> [l \in 1..d |-> VDot(T[k], Comp(ul[e], l))]]])
      sc == ScatterV(S, loc)
  IN  Force([i \in DOMAIN u |-> [l \in 1..d |-> RRound(RDiv(sc[i][l], Len(S.vat[i])), 160)]])
OpFilter(S, u, alpha) == VAddV(VScaleV(RSub(1, alpha), u), VScaleV(alpha, Project(S, u)))
(* its inverse: Project is a projection                                     *)
Unfilter(S, u, alpha) ==
  LET p == Project(S, u) IN VAddV(p, VScaleV(RDiv(1, RSub(1, alpha)), VSubV(u, p)))

(* average over elements of d_1 u_2 - d_2 u_1                                *)
OpVorticity(S, u) ==
  LET ul == Loc(S.vel, u)
      loc == Force([e \in DOMAIN S.vel |-> [q \in DOMAIN S.W[e] |->
             RSub(VDot(GradRow(S.E[e], q, 1), Comp(ul[e], 2)), VDot(GradRow(S.E[e], q, 2), Comp(ul[e], 1)))]])
  IN  Force([i \in DOMAIN u |-> RDiv(VSum([o \in DOMAIN S.vat[i] |-> loc[S.vat[i][o][1]][S.vat[i][o][2]]]),
                                     Len(S.vat[i]))])
=============================================================================
