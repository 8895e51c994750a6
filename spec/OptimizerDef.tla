----------------------------- MODULE OptimizerDef -----------------------------
(* AdamW with decoupled weight decay after clipping by the global norm.        *)
(* A state is [x, m, v, n]: parameters, moments, number of updates so far.      *)
EXTENDS BigRat

B1 == "9/10"
B2 == "19/20"
Eps == "1/1000000"
Bits == 200
R(v) == Force(VRound(v, Bits))
Norm(g) == RSqrt(VDot(g, g), Bits)
(* limit "none": no clipping                                                   *)
Clip(g, limit) ==
  IF limit = "none" THEN g
  ELSE CHOOSE c \in {IF RLt(n, limit) THEN g ELSE R(VScale(RDiv(limit, n), g)) : n \in {Norm(g)}} : TRUE
Start(x) == [x |-> x, m |-> [i \in DOMAIN x |-> "0"], v |-> [i \in DOMAIN x |-> "0"], n |-> 0]
Update(s, g, rate, decay, limit) ==
  CHOOSE t \in {
    LET n == s.n + 1
        m == R(VAdd(VScale(B1, s.m), VScale(RSub(1, B1), c)))
        v == R(VAdd(VScale(B2, s.v), VScale(RSub(1, B2), VMul(c, c))))
        d1 == RSub(1, RPow(B1, n))
        d2 == RSub(1, RPow(B2, n))
        step(i) == RAdd(RDiv(RDiv(m[i], d1), RAdd(RSqrt(RRound(RDiv(v[i], d2), Bits), Bits), Eps)),
                        RMul(decay, s.x[i]))
    IN  [x |-> R([i \in DOMAIN s.x |-> RSub(s.x[i], RMul(rate, step(i)))]), m |-> m, v |-> v, n |-> n]
    : c \in {Clip(g, limit)}} : TRUE
=============================================================================
