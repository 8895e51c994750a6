------------------------------ MODULE AdjointTrace -----------------------------
(***************************************************************************)
(* Recorded derivatives of programs of finite element operations.             *)
(* Numbers of the program are pairs <<value, derivative>>.                      *)
(* c.u, c.du, t.coords, c.dx: a field and the coordinates by node of the whole    *)
(* mesh, and their directions.  t.own[p][k]: node of slot k of device p or -1.    *)
(***************************************************************************)
EXTENDS TraceBase, FEDef

Bits == 160
Num(a, b) == <<RRound(a, Bits), RRound(b, Bits)>>
NAdd(a, b) == <<RAdd(a[1], b[1]), RAdd(a[2], b[2])>>
NMul(a, b) == Num(RMul(a[1], b[1]), RAdd(RMul(a[1], b[2]), RMul(a[2], b[1])))
Const(a) == <<a, "0">>
RECURSIVE NSumTo(_, _)
NSumTo(s, n) == IF n = 0 THEN <<"0", "0">> ELSE NAdd(NSumTo(s, n - 1), s[n])
NSum(s) == NSumTo(s, Len(s))
NDot(a, b) == NSum([i \in DOMAIN a |-> NMul(a[i], b[i])])
RECURSIVE NSumOver(_, _)
NSumOver(f, S) == IF S = {} THEN <<"0", "0">> ELSE LET o == CHOOSE o \in S : TRUE IN NAdd(f[o], NSumOver(f, S \ {o}))
ToS(q) == {q[i] : i \in DOMAIN q}

(* the geometry of an element whose nodes move with velocity dX                 *)
Moving(B, X, dX) ==
  LET d == Len(X[1])
      K == 1..Len(X)
  IN  CHOOSE r \in {
        CHOOSE s \in {Force([
            det |-> [q \in DOMAIN B.w |-> Num(E.det[q], RMul(E.det[q], VSum([a \in 1..d |-> D[q][a][a]])))],
            x   |-> [q \in DOMAIN B.w |-> [a \in 1..d |->
                       Num(E.x[q][a], VDot(B.v[q], [k \in K |-> dX[k][a]]))]],
            g   |-> [q \in DOMAIN B.w |-> [k \in K |-> [b \in 1..d |->
                       Num(E.g[q][k][b], RNeg(VSum([a \in 1..d |-> RMul(E.g[q][k][a], D[q][a][b])])))]]]])
          (* D[q][a][b] = d dx_a / d x_b                                         *)
          : D \in {Force([q \in DOMAIN B.w |-> [a \in 1..d |-> [b \in 1..d |->
                     VSum([k \in K |-> RMul(dX[k][a], E.g[q][k][b])])]]])}} : TRUE
        : E \in {Element(B, X)}} : TRUE

(* value and gradient of a field (by node of the element) at a quadrature point  *)
At(B, E, u, q) ==
  Force([v |-> NSum([k \in DOMAIN u |-> NMul(Const(B.v[q][k]), u[k])]),
         g |-> [b \in DOMAIN E.x[q] |-> NSum([k \in DOMAIN u |-> NMul(u[k], E.g[q][k][b])])]])
(* the covector of (a1 u + a2 |x|^2 u + a3 u^3) v + (b1 + b2 u^2) grad u . grad v *)
Covector(B, E, u, f) ==
  CHOOSE r \in {Force([k \in DOMAIN u |-> NSum([q \in DOMAIN B.w |->
       NMul(NMul(Const(B.w[q]), E.det[q]), NAdd(NMul(c[q].a, Const(B.v[q][k])), NDot(c[q].b, E.g[q][k])))])])
    : c \in {Force([q \in DOMAIN B.w |->
        CHOOSE z \in {[a |-> NMul(y.v, NAdd(NAdd(Const(f[1]), NMul(Const(f[2]), NDot(E.x[q], E.x[q]))),
                                             NMul(Const(f[3]), NMul(y.v, y.v)))),
                       b |-> [j \in DOMAIN y.g |-> NMul(y.g[j], NAdd(Const(f[4]), NMul(Const(f[5]), NMul(y.v, y.v))))]]
                      : y \in {At(B, E, u, q)}} : TRUE])}} : TRUE
(* the integral of e1 u^2 + e2 |x|^2 u + e3 |grad u|^2 + e4 u^3                   *)
Integral(B, E, u, f) ==
  NSum([q \in DOMAIN B.w |->
    CHOOSE z \in {NMul(NMul(Const(B.w[q]), E.det[q]),
        NAdd(NMul(y.v, NAdd(NMul(Const(f[1]), y.v), NAdd(NMul(Const(f[2]), NDot(E.x[q], E.x[q])),
                                                         NMul(Const(f[4]), NMul(y.v, y.v))))),
             NMul(Const(f[3]), NDot(y.g, y.g))))
      : y \in {At(B, E, u, q)}} : TRUE])

TraceFailing(t) ==
  LET c == t.case IN
  IF t.outcome # "ok" THEN {"returns"} ELSE
  IF t.refused THEN
    Clause("refused", \E e, f \in DOMAIN t.elements : c.parts[e] = c.parts[f] /\
      \E k, l \in DOMAIN t.elements[e] : LET i == t.elements[e][k] + 1  j == t.elements[f][l] + 1 IN
        i # j /\ t.rep[i] = t.rep[j]) ELSE
  LET d == c.d
      B == RefBasis(d, t.nodes, t.evals, t.weights)
      K == Len(B.v[1])
      N == Len(t.coords)
      Es == DOMAIN t.elements
      Ps == DOMAIN t.own
      home(e) == IF t.partitioned THEN c.parts[e] + 1 ELSE 1
      E == Force([e \in Es |-> Moving(B, [k \in 1..K |-> t.coords[t.elements[e][k] + 1]],
                                         [k \in 1..K |-> c.dx[t.elements[e][k] + 1]])])
      owned == Force([p \in Ps |-> {t.elements[o[1]][o[2]] + 1 : o \in {o \in Es \X (1..K) : home(o[1]) = p}}])
      corners == Force([p \in Ps |-> [i \in 1..N |->
                   {o \in Es \X (1..K) : home(o[1]) = p /\ t.elements[o[1]][o[2]] = i - 1}]])
      all == {s \in Ps \X (1..N) : s[2] \in owned[s[1]]}
      same == Force([i \in 1..N |-> {s \in all : t.rep[s[2]] = t.rep[i]}])
      fixed == ToS(t.fixed)
      local(F, e) == Force([k \in 1..K |-> F[home(e)][t.elements[e][k] + 1]])
      each(f(_, _)) == Force([p \in Ps |-> [i \in 1..N |-> IF i \in owned[p] THEN f(p, i) ELSE <<"0", "0">>]])
      (* there and back: by a mesh of another order of the same elements           *)
      to2 == RefBasis(d, t.nodes, t.nodes2, t.nodes2)
      to1 == RefBasis(d, t.nodes2, t.nodes, t.nodes)
      interp(T, u) == Force([q \in DOMAIN T.v |-> NSum([k \in DOMAIN u |-> NMul(Const(T.v[q][k]), u[k])])])
      run(op, F) ==
        CASE op.op = "square" -> each(LAMBDA p, i : NMul(F[p][i], F[p][i]))
          [] op.op = "mask" -> each(LAMBDA p, i : IF i - 1 \in fixed THEN <<"0", "0">> ELSE F[p][i])
          [] op.op = "exchange" ->
               CHOOSE r \in {each(LAMBDA p, i : s[t.rep[i] + 1])
                 : s \in {Force([i \in 1..N |-> NSumOver([o \in same[i] |-> F[o[1]][o[2]]], same[i])])}} : TRUE
          [] op.op = "apply" ->
               CHOOSE r \in {each(LAMBDA p, i : NSumOver([o \in corners[p][i] |-> l[o[1]][o[2]]], corners[p][i]))
                 : l \in {Force([e \in Es |-> Covector(B, E[e], local(F, e), op.form)])}} : TRUE
          [] op.op = "transfer" ->
               CHOOSE r \in {each(LAMBDA p, i : LET o == CHOOSE o \in corners[p][i] : TRUE IN l[o[1]][o[2]])
                 : l \in {Force([e \in Es |-> CHOOSE z \in {interp(to1, interp(to2, v)) : v \in {local(F, e)}} : TRUE])}} : TRUE
      RunTo[n \in 0..Len(c.prog)] ==
        IF n = 0 THEN each(LAMBDA p, i : <<c.u[i], c.du[i]>>)
        ELSE CHOOSE r \in {run(c.prog[n], F) : F \in {RunTo[n - 1]}} : TRUE
      energy(F, p) == NSumOver([e \in {e \in Es : home(e) = p} |-> Integral(B, E[e], local(F, e), c.energy)],
                               {e \in Es : home(e) = p})
      slots == {s \in Ps \X (DOMAIN t.own[1]) : t.own[s[1]][s[2]] # -1}
      top(v) == VMaxAbs([p \in DOMAIN v |-> VMaxAbs(v[p])])
      flat(v) == VSum([p \in Ps |-> v[p]])
      pair(a, b) == VSum([p \in Ps |-> VDot(a[p], b[p])])
      finite(a) == \A p \in DOMAIN a : \A k \in DOMAIN a[p] : RNum(a[p][k])
      spread(v) == [p \in Ps |-> [k \in DOMAIN t.own[p] |-> IF t.own[p][k] = -1 THEN "0" ELSE v[t.own[p][k] + 1]]]
      abs(a) == [p \in DOMAIN a |-> [k \in DOMAIN a[p] |-> RAbs(a[p][k])]]
      near(a, b, scale) == RNear(a, b, RMul("1p-30", RAdd(scale, "1p-20")))
      field(got, F, n) ==
        \A scale \in {top([p \in Ps |-> [i \in 1..N |-> F[p][i][n]]])} :
          \A s \in slots : near(got[s[1]][s[2]], F[s[1]][t.own[s[1]][s[2]] + 1][n], scale)
  IN
  CHOOSE result \in {
    Clause("value", field(t.out, F, 1))
    \cup Clause("tangent", field(t.dout, F, 2))
    \cup Clause("integral", \A p \in Ps : near(t.energy[p], en[p][1], VMaxAbs([o \in Ps |-> en[o][1]])))
    \cup Clause("integral_tangent", \A p \in Ps : near(t.denergy[p], en[p][2],
                  RAdd(VMaxAbs([o \in Ps |-> en[o][1]]), VMaxAbs([o \in Ps |-> en[o][2]]))))
    \cup (IF ~finite(t.gu) \/ \E a \in 1..d : ~finite(t.gx[a]) THEN {"finite_gradient"} ELSE
          Clause("gradient",
            (* <gradient, direction> = <cotangent, tangent>, whatever the path       *)
            near(RAdd(pair(t.gu, spread(c.du)), VSum([a \in 1..d |-> pair(t.gx[a], spread([i \in 1..N |-> c.dx[i][a]]))])),
                 RAdd(pair(c.w, t.dout), VDot(c.om, t.denergy)),
                 RAdd(RAdd(pair(abs(c.w), abs(t.dout)), VMaxAbs([p \in Ps |-> RMul(c.om[p], t.denergy[p])])),
                      VSum([a \in 1..d |-> pair(abs(t.gx[a]), abs(spread([i \in 1..N |-> c.dx[i][a]])))])))))
    : F \in {RunTo[Len(c.prog)]}, en \in {Force([p \in Ps |->
        CHOOSE z \in {energy(G, p) : G \in {RunTo[Len(c.prog)]}} : TRUE])}} : TRUE
=============================================================================
