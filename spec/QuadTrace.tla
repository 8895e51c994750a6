------------------------------ MODULE QuadTrace ------------------------------
(* Recorded Nodes1D and Quadrature1D.                                       *)
EXTENDS TraceBase, Poly
Near(a, b) == RNear(a, b, "1p-42")

Nodes(c, t) ==
  LET xs == t.nodes
      n == c.num
  IN  Clause("nodes_ordered_in_the_interval",
         /\ Len(xs) = n
         /\ \A i \in 1..n : RLe(-1, xs[i]) /\ RLe(xs[i], 1)
         /\ \A i \in 1..(n - 1) : RLt(xs[i], xs[i + 1]))
      \cup Clause("nodes_of_the_type",
         /\ \A i \in 1..n : Near(xs[i], RNeg(xs[n + 1 - i]))
         /\ CASE c.type = "nc" -> \A i \in 1..n : Near(xs[i], RDiv(2 * i - n - 1, n - 1))
              [] c.type = "gl" -> \A i \in 1..n : RNear(PEval(c.poly, xs[i]), 0, "1p-38")
              [] OTHER -> /\ REq(xs[1], -1) /\ REq(xs[n], 1)
                          /\ \A i \in 2..(n - 1) : RNear(PEval(c.poly, xs[i]), 0, "1p-34"))
      \cup Clause("continuous_iff_endpoints_are_nodes",
         t.continuous = (REq(xs[1], -1) /\ REq(xs[n], 1)))

Rule(c, t) ==
  LET xs == t.nodes
      ws == t.weights
      n == c.num
      top == CASE c.type = "nc" -> 1 [] c.type = "gl" -> 2 * n - 1 [] OTHER -> 2 * n - 3
      pw == Force([i \in 1..n |-> Powers(xs[i], top)])
  IN  Clause("rule_has_the_nodes", Len(ws) = n /\ t.rule_nodes = xs /\ t.rule_points = n)
      \cup Clause("positive_weights", \A i \in DOMAIN ws : RLt(0, ws[i]))
      \cup Clause("exact_for_polynomials",
         \A k \in 0..top : Near(VSum([i \in 1..n |-> RMul(ws[i], pw[i][k + 1])]), Moment(k)))
      \cup (IF c.type # "nc" THEN {} ELSE Clause("trapezoidal",
         \A i \in 1..n : Near(ws[i], RDiv(IF i \in {1, n} THEN 1 ELSE 2, n - 1))))
      \cup Clause("tensor_product_weights",
         \A d \in DOMAIN t.weights_nd :
            LET N == Len(t.weights_nd[d])
                RECURSIVE Pow(_)
                Pow(i) == IF i = 0 THEN 1 ELSE n * Pow(i - 1)
            IN  N = Pow(d) /\ \A q \in 1..N :
                  Near(t.weights_nd[d][q],
                       VProd([i \in 1..d |-> ws[1 + (((q - 1) \div Pow(d - i)) % n)]])))

Equality(c, t) ==
  LET a == c.left
      b == c.right
  IN  Clause("equal_iff_the_same_nodes",
         t.eq = (a.type = b.type /\ (IF a.type = "single" THEN a.value = b.value ELSE a.num = b.num))
         /\ t.qe = t.eq /\ t.single_value)

TraceFailing(t) ==
  IF t.outcome # "ok" THEN {"returns"}
  ELSE IF t.case.kind = "eq" THEN Equality(t.case, t)
  ELSE Nodes(t.case, t) \cup Rule(t.case, t)
=============================================================================
