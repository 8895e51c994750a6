----------------------------- MODULE MultiscaleDef -----------------------------
(* Orders of the cells of a square grid that keep squares together, and shells  *)
(* of wave numbers.                                                           *)
EXTENDS Integers, Sequences, FiniteSets

RECURSIVE Sides(_, _)
(* sides of the squares: the first one, then times every patch size             *)
Sides(first, patches) ==
  IF patches = <<>> THEN <<first>> ELSE <<first>> \o Sides(first * Head(patches), Tail(patches))
Row(size, e) == e \div size
Col(size, e) == e % size
(* The cells p[from..from + side^2 - 1] are a square of the grid of such squares *)
IsSquare(p, size, from, side) ==
  LET cells == {p[k] : k \in from..(from + side * side - 1)}
      r == Row(size, p[from]) \div side
      c == Col(size, p[from]) \div side
  IN cells = {(r * side + i) * size + c * side + j : i, j \in 0..(side - 1)}
KeepsSquares(p, size, side) ==
  \A b \in 0..((size * size) \div (side * side) - 1) : IsSquare(p, size, b * side * side + 1, side)
IsPermutation(p, n) == Len(p) = n /\ {p[i] : i \in DOMAIN p} = 0..(n - 1)

(* Shells: wave numbers (a, b) of an n x n grid, both in Freqs(n); the bounds    *)
(* of the shells are i/19 of the longest one, i = 0..19                         *)
Freqs(n) == (-(n \div 2))..((n - 1) \div 2)
LongestSq(n) == LET m == n \div 2 IN 2 * m * m
(* its position relative to bound i: "below", "on" or "above"                   *)
Below(n, a, b, i) == (a * a + b * b) * 361 < i * i * LongestSq(n)
On(n, a, b, i) == (a * a + b * b) * 361 = i * i * LongestSq(n)
=============================================================================
