-------------------------------- MODULE SdeDef --------------------------------
(***************************************************************************)
(* The Euler-Heun scheme for Stratonovich equations, and the adjoint         *)
(* equation integrated backwards by the same scheme.                        *)
(* A system: [D |-> terms of the drift, G |-> terms of the diffusion]; term:  *)
(* [o: component it adds to, c: number, th: parameter (0: none), ta: power of *)
(* t, ys: powers of y, w: component of dw (0: none)].                         *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, BigRat

Bits == 160
V(v) == Force(VRound(v, Bits))
RECURSIVE YPow(_, _, _)
YPow(y, e, i) == IF i = 0 THEN "1" ELSE RMul(YPow(y, e, i - 1), RPow(y[i], e[i]))
Theta(th, k) == IF k = 0 THEN "1" ELSE th[k]
Noise(dw, k) == IF k = 0 THEN "1" ELSE dw[k]
(* value of a term; without its parameter; differentiated by y[j]           *)
Bare(m, y, t, dw) == RMul(RMul(m.c, RPow(t, m.ta)), RMul(YPow(y, m.ys, Len(y)), Noise(dw, m.w)))
Value(m, y, t, dw, th) == RMul(Theta(th, m.th), Bare(m, y, t, dw))
DValue(m, y, t, dw, th, j) ==
  IF m.ys[j] = 0 THEN "0"
  ELSE RMul(m.ys[j], Value([m EXCEPT !.ys[j] = @ - 1], y, t, dw, th))

Pick(T, Test(_)) == SelectSeq(T, Test)
Eval(T, y, t, dw, th) == Force([o \in DOMAIN y |->
   VSum([i \in DOMAIN T |-> IF T[i].o = o THEN Value(T[i], y, t, dw, th) ELSE "0"])])
(* transposed derivatives applied to a                                      *)
EvalY(T, y, t, dw, th, a) == Force([j \in DOMAIN y |->
   VSum([i \in DOMAIN T |-> RMul(a[T[i].o], DValue(T[i], y, t, dw, th, j))])])
EvalP(T, y, t, dw, th, a) == Force([k \in DOMAIN th |->
   VSum([i \in DOMAIN T |-> IF T[i].th = k THEN RMul(a[T[i].o], Bare(T[i], y, t, dw)) ELSE "0"])])

(* one step from time t                                                     *)
Forward(sys, y, t, dt, dw, th) ==
  LET mu == Eval(sys.D, y, t, dw, th)
      s == Eval(sys.G, y, t, dw, th)
      h == Eval(sys.G, Force(VAdd(y, s)), RAdd(t, dt), dw, th)
  IN  V(VAdd(VAdd(y, VScale(dt, mu)), VScale("1/2", VAdd(s, h))))

(* The augmented state z = [y, a, p] one step back from time t: y and a (the  *)
(* sensitivity to y) and p (to the parameters, accumulated)                  *)
Aug(T, z, t, dw, th) ==
  Force([y |-> VScale(-1, Eval(T, z.y, t, dw, th)),
              a |-> EvalY(T, z.y, t, dw, th, z.a),
              p |-> EvalP(T, z.y, t, dw, th, z.a)])
Plus(u, c, v) == Force([y |-> VAdd(u.y, VScale(c, v.y)), a |-> VAdd(u.a, VScale(c, v.a)),
                        p |-> VAdd(u.p, VScale(c, v.p))])
RoundAll(z) == Force([y |-> VRound(z.y, Bits), a |-> VRound(z.a, Bits), p |-> VRound(z.p, Bits)])
Backward(sys, z, t, dt, dw, th) ==
  LET mu == Aug(sys.D, z, t, dw, th)
      s == Aug(sys.G, z, t, dw, th)
      h == Aug(sys.G, Plus(z, 1, s), RSub(t, dt), dw, th)
  IN  RoundAll(Plus(Plus(z, dt, mu), "1/2", Plus(s, 1, h)))
=============================================================================
