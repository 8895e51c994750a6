---------------------------------- MODULE CG ----------------------------------
(***************************************************************************)
(* Conjugate gradients as a transition system over exact numbers, for all    *)
(* systems L L' x = b with small L and b, with and without preconditioner.  *)
(***************************************************************************)
EXTENDS CGDef, Json
CONSTANTS N, Entries, Emit            \* Entries: of L and b, plus one
Diag == <<1, 2, 1, 3>>
VARIABLES prob, s, past               \* past: the directions and residuals so far

Below == {ij \in (1..N) \X (1..N) : ij[1] > ij[2]}
Lower == {[i \in 1..N |-> [j \in 1..N |-> CASE i = j -> Diag[i]
                                             [] i < j -> 0
                                             [] OTHER -> f[<<i, j>>] - 1]] : f \in [Below -> Entries]}
RECURSIVE SumTo(_, _)
SumTo(f, n) == IF n = 0 THEN 0 ELSE f[n] + SumTo(f, n - 1)
Mat(L) == [i \in 1..N |-> [j \in 1..N |-> SumTo([k \in 1..N |-> L[i][k] * L[j][k]], N)]]
Id == [i \in 1..N |-> [j \in 1..N |-> IF i = j THEN 1 ELSE 0]]
Jacobi(A) == [i \in 1..N |-> [j \in 1..N |-> IF i = j THEN RStr(RDiv(1, A[i][i])) ELSE "0"]]
Zero == [i \in 1..N |-> 0]
Rhs == {[i \in 1..N |-> IF i = 1 THEN 1 ELSE f[i] - 1] : f \in [2..N -> Entries]}

Problem(L, b, x, pre, m) ==
  [A |-> Mat(L), M |-> IF pre THEN Jacobi(Mat(L)) ELSE Id, w |-> [i \in 1..N |-> 1], b |-> b,
   x0 |-> x, tol |-> "1p-20", atol |-> 0, maxiter |-> m]
Init ==
  \E L \in Lower, b \in Rhs, pre \in BOOLEAN, x \in {Zero, [i \in 1..N |-> i]} :
    /\ prob = Problem(L, b, x, pre, N + 1)
    /\ s = Start(prob)
    /\ past = <<>>
Going == RLt(Limit(prob), s.gamma) /\ s.k < prob.maxiter
Next == /\ Going
        /\ s' = Step(prob, s)
        /\ past' = Append(past, [p |-> s.p, r |-> s.r, x |-> s.x])
        /\ UNCHANGED prob
Spec == Init /\ [][Next]_<<prob, s, past>> /\ WF_<<prob, s, past>>(Next)

Tiny == "1p-150"
Nil(a) == RNear(a, 0, Tiny)
ResidualIsTrue == VNear(s.r, VSub(prob.b, Op(prob, s.x)), Tiny)
Conjugate == \A i \in DOMAIN past : /\ Nil(VDot(past[i].p, Op(prob, s.p)))
                                    /\ Nil(VDot(past[i].r, MatVec(prob.M, s.r)))
(* energy norm of the error never grows: phi(x) = x'Ax/2 - b'x              *)
Energy(x) == RSub(RDiv(VDot(x, Op(prob, x)), 2), VDot(prob.b, x))
EnergyFalls == \A i \in DOMAIN past : RLt(Energy(s.x), Energy(past[i].x))
AtMostN == s.k <= N /\ (s.k = N => Nil(s.gamma))
Solved == (~Going /\ s.k < prob.maxiter) => RLe(s.gamma, Limit(prob))
Terminates == <>[](~Going)
Inv == /\ ResidualIsTrue /\ Conjugate /\ EnergyFalls /\ AtMostN /\ Solved
       /\ (Emit /\ ~Going => PrintT("CASE " \o ToJson([A |-> prob.A, b |-> prob.b,
              x0 |-> prob.x0, M |-> prob.M, steps |-> s.k])))
=============================================================================
