--------------------------- MODULE DistributedTrace ----------------------------
(***************************************************************************)
(* Recorded finite element computations on partitioned meshes.                 *)
(* t.coords, t.elements: the whole (refined) mesh; t.rep[i]: the first node      *)
(* identified with node i; t.own[p][k]: the node of slot k of device p (-1:      *)
(* padding).  c.u, c.f: values of fields by node.                              *)
(***************************************************************************)
EXTENDS TraceBase, FEDef

ToS(q) == {q[i] : i \in DOMAIN q}
RECURSIVE SumOver(_, _)
SumOver(m, S) == IF S = {} THEN "0" ELSE LET o == CHOOSE o \in S : TRUE IN RAdd(m[o[1]][o[2]], SumOver(m, S \ {o}))

TraceFailing(t) ==
  LET c == t.case IN
  IF t.outcome # "ok" THEN {"returns"} ELSE
  IF t.refused THEN
    (* only if a device would hold several images of a node                      *)
    Clause("refused", \E e, f \in DOMAIN t.elements : c.parts[e] = c.parts[f] /\
      \E k, l \in DOMAIN t.elements[e] : LET i == t.elements[e][k] + 1  j == t.elements[f][l] + 1 IN
        i # j /\ t.rep[i] = t.rep[j]) ELSE
  LET d == c.d
      B == RefBasis(d, t.nodes, t.evals, t.weights)
      Q == Len(B.w)
      K == Len(B.v[1])
      N == Len(t.coords)
      Es == DOMAIN t.elements
      E == Force([e \in Es |-> Element(B, [k \in 1..K |-> t.coords[t.elements[e][k] + 1]])])
      at == Force([i \in 1..N |-> {o \in Es \X (1..K) : t.rep[t.elements[o[1]][o[2]] + 1] = t.rep[i]}])
      fixed == ToS(t.fixed)
      masked(v) == Force([i \in 1..N |-> IF i - 1 \in fixed THEN "0" ELSE v[i]])
      loc(v, e) == Force([k \in 1..K |-> v[t.elements[e][k] + 1]])
      (* stiffness plus s times mass, by element                                *)
      apply(u, g, s) ==
        CHOOSE r \in {Force([i \in 1..N |-> RRound(SumOver(l, at[i]), 160)]) : l \in {Force([e \in Es |->
          CHOOSE x \in {[k \in 1..K |-> VSum([q \in 1..Q |-> RMul(RMul(B.w[q], E[e].det[q]),
                           RAdd(RMul(g, VDot(a[q].g, E[e].g[q][k])), RMul(s, RMul(a[q].v, B.v[q][k]))))])]
                         : a \in {Force([q \in 1..Q |-> ScalarAt(B, E[e], loc(u, e), q)])}} : TRUE])}} : TRUE
      quad(u, part) ==       \* of |grad u|^2 + c.s u^2, over the elements of a device
        VSum([e \in Es |-> IF c.parts[e] # part THEN "0" ELSE
          VSum([q \in 1..Q |-> CHOOSE x \in {RMul(RMul(B.w[q], E[e].det[q]), RAdd(VDot(a.g, a.g), RMul(c.s, RMul(a.v, a.v))))
                                           : a \in {ScalarAt(B, E[e], loc(u, e), q)}} : TRUE])])
      volume(part) == VSum([e \in Es |-> IF c.parts[e] # part THEN "0" ELSE
                              VSum([q \in 1..Q |-> RMul(B.w[q], E[e].det[q])])])
      (* the field c.v of the other mesh at the nodes of this one: the value of   *)
      (* its polynomial in one of the elements of the node                      *)
      transferred ==
        CHOOSE r \in {Force([i \in 1..N |->
            LET o == CHOOSE o \in Es \X (1..K) : t.elements[o[1]][o[2]] = i - 1
            IN  VDot(tb.v[o[2]], [k \in 1..Len(t.elements2[o[1]]) |-> c.v[t.elements2[o[1]][k] + 1]])])
          : tb \in {RefBasis(d, t.nodes2, t.nodes, t.nodes)}} : TRUE
      (* a field of slots has the values of its nodes                           *)
      copies(v, want, tol) == \A top \in {RAdd(VMaxAbs(want), "1p-20")} :
        \A p \in DOMAIN t.own : \A k \in DOMAIN t.own[p] :
          t.own[p][k] # -1 => RNear(v[p][k], want[t.own[p][k] + 1], RMul(tol, top))
      someone(v) == Force([i \in 1..N |->      \* the value of a copy of every node
        CHOOSE x \in {LET o == CHOOSE o \in ((DOMAIN t.own) \X (1..Len(t.own[1]))) : t.own[o[1]][o[2]] = i - 1
                      IN  v[o[1]][o[2]]} : TRUE])
  IN
  Clause("every_node_has_a_copy", {t.own[p][k] : p \in DOMAIN t.own, k \in DOMAIN t.own[1]} \ {-1} = 0..(N - 1))
  \cup (IF \E i \in 0..(N - 1) : \A p \in DOMAIN t.own : i \notin ToS(t.own[p]) THEN {} ELSE
  CHOOSE F \in {
    Clause("operator", copies(t.applied, masked(apply(masked(c.u), 1, c.s)), "1p-32"))
    \cup Clause("transfer", copies(t.transferred, transferred, "1p-32"))
    \cup Clause("load", copies(t.load, b, "1p-32"))
    \cup Clause("integrals", Len(t.energy) = Len(t.own) /\ \A p \in DOMAIN t.own :
           /\ \A w \in {quad(c.u, p - 1)} : RNear(t.energy[p], w, RMul("1p-32", RAdd(RAbs(w), 1)))
           /\ \A w \in {volume(p - 1)} : RNear(t.volume[p], w, RMul("1p-32", RAdd(RAbs(w), 1))))
    \cup Clause("number_of_copies", \A p \in DOMAIN t.own : \A k \in DOMAIN t.own[p] :
           t.own[p][k] # -1 => REq(t.copies[p][k], Cardinality({o \in (DOMAIN t.own) \X (DOMAIN t.own[1]) :
              t.own[o[1]][o[2]] # -1 /\ t.rep[t.own[o[1]][o[2]] + 1] = t.rep[t.own[p][k] + 1]})))
    \cup Clause("copies_agree", copies(t.x, Force([i \in 1..N |-> x[t.rep[i] + 1]]), "1p-32"))
    \cup Clause("solution", /\ \A i \in fixed : REq(x[i + 1], 0)
           /\ \A r \in {VSub(b, masked(apply(x, 1, c.s)))} : RLe(VMaxAbs(r), RMul("1p-24", VMaxAbs(b))))
    \cup Clause("all_devices_stop_together", \A p \in DOMAIN t.iterations : t.iterations[p] = t.iterations[1])
    : b \in {masked(apply(c.f, 0, 1))}, x \in {someone(t.x)}} : TRUE)
=============================================================================
