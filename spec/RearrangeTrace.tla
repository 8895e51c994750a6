---------------------------- MODULE RearrangeTrace ----------------------------
EXTENDS TraceBase, MultiscaleDef, FiniteSetsExt
Dist(x, y) == FoldSet(LAMBDA i, s : s + (x[i] - y[i]) * (x[i] - y[i]), 0, DOMAIN x)
Sum(f(_), S) == FoldSet(LAMBDA x, s : s + f(x), 0, S)

(* energy strictly inside of shell i, and on its lower / upper bound            *)
Inside(n, e, i) ==
  Sum(LAMBDA p : e[p[1]][p[2]],
      {p \in (1..n) \X (1..n) : LET a == p[1] - 1 - n \div 2  b == p[2] - 1 - n \div 2
                                IN ~Below(n, a, b, i - 1) /\ ~On(n, a, b, i - 1) /\ Below(n, a, b, i)})
OnBound(n, e, i) ==
  {p \in (1..n) \X (1..n) : On(n, p[1] - 1 - n \div 2, p[2] - 1 - n \div 2, i)}
Energy(e, S) == Sum(LAMBDA p : e[p[1]][p[2]], S)

TraceFailing(t) ==
  LET c == t.case IN
  IF t.outcome # "ok" THEN {"returns"} ELSE
  CASE c.kind = "perm" ->
    Clause("permutation_of_the_elements", IsPermutation(t.perm, c.size * c.size))
    \cup Clause("elements_of_squares_stay_together",
       IsPermutation(t.perm, c.size * c.size) =>
         \A i \in DOMAIN Sides(c.first, c.patches) :
           KeepsSquares(t.perm, c.size, Sides(c.first, c.patches)[i]))
  [] c.kind = "transfer" ->
    Clause("nearest_source_node",
      /\ Len(t.perm) = Len(c.target)
      /\ \A i \in DOMAIN t.perm :
           /\ t.perm[i] \in 0..(Len(c.source) - 1)
           /\ \A y \in {c.source[k] : k \in DOMAIN c.source} :
                Dist(c.source[t.perm[i] + 1], c.target[i]) <= Dist(y, c.target[i]))
  [] c.kind = "spectrum" ->
    (* rounding may put wave numbers exactly on a bound to either side          *)
    Clause("shells_of_the_spectrum",
      /\ Len(t.spectrum) = 18
      /\ LET inside == TLCEval([i \in 1..18 |-> Inside(c.n, c.energy, i)])
             on == TLCEval([i \in 0..18 |-> Energy(c.energy, OnBound(c.n, c.energy, i))])
         IN /\ \A i \in 1..18 :
                 /\ t.spectrum[i] >= inside[i] + (IF i = 1 THEN on[0] ELSE 0)
                 /\ t.spectrum[i] <= inside[i] + on[i - 1] + on[i]
            /\ LET total == Sum(LAMBDA i : t.spectrum[i], 1..18)
                   all == Sum(LAMBDA i : inside[i], 1..18) + Sum(LAMBDA i : on[i], 0..17)
               IN total >= all /\ total <= all + on[18])
    \cup Clause("bounds_of_the_shells", t.bounds_ok)
=============================================================================
