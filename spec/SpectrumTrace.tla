---------------------------- MODULE SpectrumTrace -----------------------------
(* Recorded energies and errors of spectra, interpolated fields.                *)
EXTENDS TraceBase, SpectrumDef

Tol == "1p-40"
Close(a, b, size) == RNear(a, b, RMul(Tol, RAdd(RAbs(b), size)))

(* ---- polynomials: coefficients c[i1]..[id] of x1^(i1-1) .. xd^(id-1) ---------- *)
RECURSIVE Value(_, _)
Value(c, x) ==
  IF x = <<>> THEN c
  ELSE CHOOSE r \in {VDot(v, p) : v \in {Force([i \in DOMAIN c |-> Value(c[i], Tail(x))])},
                                  p \in {Force([i \in DOMAIN c |-> RRound(RPow(x[1], i - 1), 200)])}} : TRUE
MaxAbs2(u) == VMaxAbs([i \in DOMAIN u |-> VMaxAbs(u[i])])

Same(got, want) == /\ Len(got) = Len(want)
  /\ \A top \in {MaxAbs2(want)} :
       \A i \in DOMAIN want : Len(got[i]) = Len(want[i]) /\ \A j \in DOMAIN want[i] : Close(got[i][j], want[i][j], top)
EnergyFailing(t, u, v) ==
  LET n == Len(u) IN
  \* floor: what rounding may leave of fields of this size
  Clause("energies", \A want \in {Energies(Cosines(n), Sines(n), u, v)} : Same(t.tke, want))

(* ---- logarithm: by roots, then a series -------------------------------------- *)
RECURSIVE Roots(_, _)
Roots(x, n) == IF n = 0 THEN x ELSE CHOOSE r \in {Roots(y, n - 1) : y \in {RSqrt(x, 160)}} : TRUE
Log(x) == CHOOSE r \in {
  CHOOSE s \in {RRound(RMul(2 ^ 13, RMul(z, VSum([k \in 1..7 |-> RDiv(RPow(z2, k - 1), 2 * k - 1)]))), 100)
                : z2 \in {RRound(RMul(z, z), 140)}} : TRUE
  : z \in {RRound(RDiv(RSub(y, 1), RAdd(y, 1)), 140) : y \in {Roots(x, 12)}}} : TRUE

(* ---- the error of the spectra of a rollout ------------------------------------ *)
RECURSIVE Rolled(_, _, _)
Rolled(past, c, n) ==
  IF n = 0 THEN past
  ELSE CHOOSE r \in {
    LET h == Len(s) IN
    Append(s, Force([i \in DOMAIN s[h] |-> [d \in 1..2 |->
              RAdd(RMul(c.weights[1], s[h][i][d]), RMul(c.weights[2], s[h - 1][i][d]))]]))
    : s \in {Rolled(past, c, n - 1)}} : TRUE
(* where[k]: the (0-based) node at grid point k                                   *)
Grid2(c, u, d) == Force([i \in 1..c.n |-> [j \in 1..c.n |-> u[c.where[(i - 1) * c.n + j] + 1][d]]])
Mean2(E) == Force([i \in DOMAIN E[1] |-> [j \in DOMAIN E[1] |-> RDiv(VSum([k \in DOMAIN E |-> E[k][i][j]]), Len(E))]])
(* shells[i]: 1 at the wave numbers of shell i, 0 elsewhere                        *)
Spectrum(shells, e) == Force([i \in 1..18 |-> RRound(VSum([k \in DOMAIN e |-> VDot(shells[i][k], e[k])]), 120)])
ErrorFailing(t, c) ==
  LET cs == Cosines(c.n)
      sn == Sines(c.n)
      shells == Force([i \in 1..18 |-> CHOOSE m \in {
                  [k \in 1..c.n |-> [l \in 1..c.n |-> IF <<k, l>> \in S THEN 1 ELSE 0]] : S \in {Shell(c.n, i)}} : TRUE])
      energy(u) == Energies(cs, sn, Grid2(c, u, 1), Grid2(c, u, 2))
      late == ((c.steps \div 2) + 1)..c.steps
      logs(fields) == CHOOSE r \in {[i \in 1..18 |-> Log(s[i])] : s \in {Spectrum(shells, Mean2(Force(
                        [k \in 1..Cardinality(late) |-> energy(fields[(c.steps \div 2) + k])])))}} : TRUE
      one(w) == CHOOSE r \in {VDot(d, d) : d \in {VSub(logs(SubSeq(p, c.order + 1, c.order + c.steps)),
                                                      logs(SubSeq(w, c.order + 1, c.order + c.steps)))
                  : p \in {Rolled(SubSeq(w, 1, c.order), c, c.steps)}}} : TRUE
  IN  Clause("error_of_spectra",
        \A want \in {RDiv(VSum([b \in DOMAIN c.batch |-> one(c.batch[b])]), Len(c.batch))} :
          Close(t.err, want, "1p-10"))

TraceFailing(t) ==
  IF t.outcome # "ok" THEN {"returns"} ELSE
  LET c == t.case IN
  CASE c.kind = "waves" -> EnergyFailing(t, c.u, c.v)
    [] c.kind = "mesh" ->
         LET n == c.elements * c.order + 1
             grid(p) == Force([i \in 1..n |-> [j \in 1..n |->
                          RRound(Value(p, <<RDiv(i - 1, n - 1), RDiv(j - 1, n - 1)>>), 120)]])
         IN  EnergyFailing(t, grid(c.u), grid(c.v))
    [] c.kind = "interpolate" ->
         Clause("interpolated", Len(t.values) = Len(t.coords)
           /\ \A i \in DOMAIN t.coords : Close(t.values[i], Value(c.u, t.coords[i]), c.top))
    [] c.kind = "error" -> ErrorFailing(t, c)
=============================================================================
