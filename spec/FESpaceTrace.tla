---------------------------- MODULE FESpaceTrace ----------------------------
(* Recorded FiniteElementSpace: geometry, functions, integrals, covectors.  *)
(* PROP = C17: geometry and integrals; C18: covectors.                      *)
EXTENDS TraceBase, FEDef

Prop == IOEnv.PROP
Tol == "1p-38"
Small == "1p-60"
Within(x, y, scale) == RNear(x, y, RAdd(Small, RMul(Tol, scale)))

TraceFailing(t) ==
  LET c == t.case IN
  IF t.outcome # "ok" THEN {"returns"} ELSE
  LET d == c.d
      B == RefBasis(d, t.nodes, t.evals, t.weights)
      Q == Len(B.w)
      K == Len(B.v[1])
      Es == DOMAIN t.elements
      X == Force([e \in Es |-> [k \in 1..K |-> t.coords[t.elements[e][k] + 1]]])
      E == Force([e \in Es |-> Element(B, X[e])])
      BA == Force([v |-> AbsAll(B.v, 2), g |-> AbsAll(B.g, 3), w |-> B.w])
      EA == Force([e \in Es |-> [x |-> AbsAll(E[e].x, 2), g |-> AbsAll(E[e].g, 3),
                                   det |-> AbsAll(E[e].det, 1)]])
      W(e, q) == RMul(B.w[q], E[e].det[q])
      WA(e, q) == RMul(B.w[q], EA[e].det[q])
      U(f) == c.funs[f].u
      absTerms(p) == [i \in DOMAIN p |-> <<RAbs(p[i][1]), p[i][2]>>]
      (* function f at a point, and its scale *)
      Val == Force([f \in DOMAIN c.funs |-> [e \in Es |-> [q \in 1..Q |->
               CASE c.funs[f].kind = "scalar" -> ScalarAt(B, E[e], U(f)[e], q)
                 [] c.funs[f].kind = "vector" -> VectorAt(B, E[e], U(f)[e], q)
                 [] OTHER -> PolyAt(c.funs[f].terms, E[e].x[q])]]])
      Abs == Force([f \in DOMAIN c.funs |-> [e \in Es |-> [q \in 1..Q |->
               CASE c.funs[f].kind = "scalar" -> ScalarAt(BA, EA[e], AbsAll(U(f)[e], 1), q)
                 [] c.funs[f].kind = "vector" -> VectorAt(BA, EA[e], AbsAll(U(f)[e], 2), q)
                 [] OTHER -> PolyAt(absTerms(c.funs[f].terms), EA[e].x[q])]]])
      Sum2(F(_, _)) == VSum([e \in Es |-> VSum([q \in 1..Q |-> F(e, q)])])
      Integral(job) == Sum2(LAMBDA e, q : RMul(W(e, q),
                    Form(job.form, [i \in DOMAIN job.args |-> Val[job.args[i]][e][q]], -1)))
      IntegralA(job) == Sum2(LAMBDA e, q : RMul(WA(e, q),
                    Form(job.form, [i \in DOMAIN job.args |-> Abs[job.args[i]][e][q]], 1)))
      (* covector entry: basis function k (component l) in the hole (arg 0)   *)
      basis(b, g, job, e, k, l, q) ==
        IF job.hole = "scalar" THEN ScalarBasis(b, g[e], k, q) ELSE VectorBasis(b, g[e], k, l, q)
      Cov(job, e, k, l) == VSum([q \in 1..Q |-> RMul(W(e, q), Form(job.form,
                    [i \in DOMAIN job.args |-> IF job.args[i] = 0 THEN basis(B, E, job, e, k, l, q)
                                               ELSE Val[job.args[i]][e][q]], -1))])
      CovA(job, e, k, l) == VSum([q \in 1..Q |-> RMul(WA(e, q), Form(job.form,
                    [i \in DOMAIN job.args |-> IF job.args[i] = 0 THEN basis(BA, EA, job, e, k, l, q)
                                               ELSE Abs[job.args[i]][e][q]], 1))])
      job(j) == c.jobs[j]
      near(a, b, s) == Within(a, b, s)
      big(m) == VMaxAbs([i \in DOMAIN m |-> VMaxAbs(m[i])])
      okCov(j) ==
        LET r == t.results[j] IN
        /\ Len(r) = Len(t.elements)
        /\ \A e \in Es : /\ Len(r[e]) = K
             /\ \A k \in 1..K :
                  IF job(j).hole = "scalar"
                  THEN near(r[e][k], Cov(job(j), e, k, 1), CovA(job(j), e, k, 1))
                  ELSE /\ Len(r[e][k]) = d
                       /\ \A l \in 1..d : near(r[e][k][l], Cov(job(j), e, k, l), CovA(job(j), e, k, l))
  IN
  Clause("sizes", t.num_elements = Len(t.elements) /\ t.num_points = Q)
  \cup (IF Prop # "C17" THEN {} ELSE
    Clause("quadrature_points_and_jacobians",
       /\ Len(t.quad_coords) = Len(t.elements) /\ Len(t.jacdets) = Len(t.elements)
       /\ Len(t.invjacs) = Len(t.elements)
       /\ \A e \in Es : /\ Len(t.quad_coords[e]) = Q /\ Len(t.jacdets[e]) = Q /\ Len(t.invjacs[e]) = Q
            /\ \A q \in 1..Q :
                 /\ near(t.jacdets[e][q], E[e].det[q], RMul(10, RPow(big(E[e].jac[q]), d)))
                 /\ \A i \in 1..d : near(t.quad_coords[e][q][i], E[e].x[q][i], RMul(10, big(EA[e].x)))
                 /\ \A i, j \in 1..d : near(t.invjacs[e][q][i][j], E[e].inv[q][i][j], RMul(10, big(E[e].inv[q]))))
    \cup UNION {Clause("integral_" \o job(j).form,
                   near(t.results[j], Integral(job(j)), IntegralA(job(j)))) : j \in DOMAIN c.jobs})
  \cup (IF Prop # "C18" THEN {} ELSE
    UNION {Clause("covector_" \o job(j).form, okCov(j)) : j \in DOMAIN c.jobs}
    \cup Clause("exactly_one_argument_is_left_open", t.refused_none /\ t.refused_two)
    \cup Clause("wrong_shapes_are_refused", t.refused_shape))
=============================================================================
