------------------------------ MODULE DatagenDef ------------------------------
(***************************************************************************)
(* The Kolmogorov flow of the data generator: du/dt + C(u) = B(forcing) +    *)
(* Stokes, where C is extrapolated and the rest is one Stokes step.           *)
(***************************************************************************)
EXTENDS TimeScheme

Pi == "31415926535897932384626433832795028841971693993751/10000000000000000000000000000000000000000000000000"
RECURSIVE Series(_, _, _, _)
Series(x2, term, n, top) ==       \* term - term x2 / ((n+1)(n+2)) + ...
  IF n > top THEN "0"
  ELSE \* (evaluated once)
    CHOOSE s \in {RAdd(term, Series(x2, tt, n + 2, top)) :
                    tt \in {RRound(RNeg(RDiv(RMul(term, x2), (n + 1) * (n + 2))), 220)}} : TRUE
RSin(x) == RRound(Series(RRound(RMul(x, x), 220), x, 1, 141), 120)
RCos(x) == RRound(Series(RRound(RMul(x, x), 220), "1", 0, 140), 120)
SinPi(x) == RSin(RRound(RMul(Pi, x), 220))
CosPi(x) == RCos(RRound(RMul(Pi, x), 220))

(* wave number 4, in the direction of x_1                                    *)
Drive(coords) == [i \in DOMAIN coords |-> SinPi(RMul(8, coords[i][2]))]
Forcing(drive, drag, u) ==
  [i \in DOMAIN u |-> <<RSub(drive[i], RMul(drag, u[i][1])), RNeg(RMul(drag, u[i][2]))>>]
InitialVelocity(x) ==
  <<RMul(CosPi(RMul(4, x[1])), SinPi(RMul(4, x[2]))),
    RNeg(RMul(SinPi(RMul(4, x[1])), CosPi(RMul(4, x[2]))))>>

(* extrapolation to the next time from the last k of h                       *)
VV(op(_, _), u, v) == [i \in DOMAIN u |-> op(u[i], v[i])]
RECURSIVE Comb(_, _, _)
Comb(h, c, j) == IF j = 1 THEN VV(LAMBDA a, b : VScale(c[1], a), h[1], h[1])
                 ELSE VV(LAMBDA a, b : VAdd(a, VScale(c[j], b)), Comb(h, c, j - 1), h[j])
ExtrapolateV(h, k) == Comb(SubSeq(h, Len(h) - k + 1, Len(h)), Ext(k - 1), k)

Label(dt, n) == RMul(dt, n)
Every == 10                      \* steps between snapshots
Snaps(from, steps) == [i \in 1..((steps \div Every) + 1) |-> from + Every * (i - 1)]
FileName(resolution, order, from, to) ==
  "kolmogorov_flow_grid_" \o ToString(resolution) \o "_order_" \o ToString(order)
  \o "_step_" \o ToString(from) \o "_" \o ToString(to) \o ".hdf5"
=============================================================================
