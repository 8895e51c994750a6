---------------------------- MODULE KolmogorovDef -----------------------------
(***************************************************************************)
(* Shear flows u = (U + a sin(wy) + b cos(wy), V) stay shear flows under the     *)
(* Kolmogorov forcing: one step of the closure solver on (U, V, a, b).          *)
(* The past: the last `order` states, oldest first.                            *)
(***************************************************************************)
EXTENDS TimeScheme

Modes == {"U", "V", "a", "b"}
Advection(w, s) == [U |-> "0", V |-> "0", a |-> RNeg(RMul(RMul(s.V, w), s.b)), b |-> RMul(RMul(s.V, w), s.a)]
Force1(drag, s) == [m \in Modes |-> RSub(IF m = "a" THEN 1 ELSE 0, RMul(drag, s[m]))]
(* c: order, dt, nu, drag, w                                                    *)
Advance(c, past) ==
  CHOOSE r \in {
    [m \in Modes |->
      LET ext == VSum([j \in 1..c.order |-> RMul(E[j], adv[j][m])])
          old == VSum([j \in 1..c.order |-> RMul(B[j], past[j][m])])
          damp == IF m \in {"a", "b"} THEN RMul(c.nu, RMul(c.w, c.w)) ELSE "0"
      IN  RRound(RDiv(RSub(RMul(c.dt, RSub(Force1(c.drag, past[c.order])[m], ext)), old),
                      RAdd(B[c.order + 1], RMul(c.dt, damp))), 200)]
    : B \in {Bdf(c.order)}, E \in {Ext(c.order - 1)},
      adv \in {Force([j \in 1..c.order |-> Advection(c.w, past[j])])}} : TRUE
RECURSIVE Unroll(_, _, _)
Unroll(c, past, n) ==      \* the past and n more states
  IF n = 0 THEN past
  ELSE CHOOSE r \in {Append(h, Advance(c, SubSeq(h, Len(h) - c.order + 1, Len(h)))) : h \in {Unroll(c, past, n - 1)}} : TRUE
=============================================================================
