-------------------------------- MODULE Poly --------------------------------
(* Polynomials with exact coefficients (constant term first), and Lagrange   *)
(* interpolation.                                                           *)
EXTENDS Integers, Sequences, FiniteSets, TLC, BigRat

PCoef(p, k) == IF k \in 0..(Len(p) - 1) THEN p[k + 1] ELSE "0"
PAdd(p, q) == [i \in 1..(IF Len(p) < Len(q) THEN Len(q) ELSE Len(p)) |-> RAdd(PCoef(p, i - 1), PCoef(q, i - 1))]
PScale(c, p) == [i \in DOMAIN p |-> RMul(c, p[i])]
PShift(p) == <<"0">> \o p                                        \* x p
PDer(p) == IF Len(p) <= 1 THEN <<"0">> ELSE [i \in 1..(Len(p) - 1) |-> RMul(i, p[i + 1])]
PMul(p, q) == [i \in 1..(Len(p) + Len(q) - 1) |->
                 VSum([j \in 1..i |-> RMul(PCoef(p, j - 1), PCoef(q, i - j))])]
PZero(p) == \A i \in DOMAIN p : REq(p[i], 0)
PEq(p, q) == PZero(PAdd(p, PScale(-1, q)))
RECURSIVE Horner(_, _)
Horner(p, x) == IF p = <<>> THEN "0" ELSE RAdd(p[1], RMul(x, Horner(Tail(p), x)))
PEval(p, x) == Horner(p, x)
(* integral over [-1, 1] *)
Moment(k) == IF k % 2 = 1 THEN "0" ELSE RDiv(2, k + 1)
PInt(p) == VSum([i \in DOMAIN p |-> RMul(p[i], Moment(i - 1))])
Powers(x, n) == Force([k \in 1..(n + 1) |-> RPow(x, k - 1)])

RECURSIVE VProdDef(_)
VProdDef(s) == IF s = <<>> THEN "1" ELSE RMul(s[1], VProdDef(Tail(s)))
VProd(s) == VProdDef(s)

(* j-th Lagrange basis polynomial on the nodes xs, and its derivative, at x  *)
Lag(xs, j, x) == VProd([k \in 1..Len(xs) |-> IF k = j THEN "1"
                          ELSE RDiv(RSub(x, xs[k]), RSub(xs[j], xs[k]))])
DLag(xs, j, x) ==
  VSum([i \in 1..Len(xs) |-> IF i = j THEN "0" ELSE
          VProd([k \in 1..Len(xs) |->
             IF k = j THEN "1"
             ELSE IF k = i THEN RDiv(1, RSub(xs[j], xs[i]))
             ELSE RDiv(RSub(x, xs[k]), RSub(xs[j], xs[k]))])])
LagMatrix(xs, es) == Force([q \in 1..Len(es) |-> [j \in 1..Len(xs) |-> RRound(Lag(xs, j, es[q]), 160)]])
DLagMatrix(xs, es) == Force([q \in 1..Len(es) |-> [j \in 1..Len(xs) |-> RRound(DLag(xs, j, es[q]), 160)]])
=============================================================================
