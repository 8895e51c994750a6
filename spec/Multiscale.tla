------------------------------ MODULE Multiscale ------------------------------
(***************************************************************************)
(* Growing an order of the cells of a square: at every level the order found  *)
(* so far is repeated for all squares of the next larger one.                *)
(***************************************************************************)
EXTENDS MultiscaleDef, TLC, Json
CONSTANTS Firsts, Patches, MaxSize, Emit
VARIABLES first, patches, side, order      \* cells as <<row, column>>

Lex(n) == [k \in 1..(n * n) |-> <<(k - 1) \div n, (k - 1) % n>>]
Grown(o, s, n) == [k \in 1..(Len(o) * n * n) |->
  LET q == Lex(n)[((k - 1) \div Len(o)) + 1]
      c == o[((k - 1) % Len(o)) + 1]
  IN <<c[1] + s * q[1], c[2] + s * q[2]>>]
Init == first \in Firsts /\ patches = <<>> /\ side = first /\ order = Lex(first)
Next == \E n \in Patches :
  /\ side * n <= MaxSize
  /\ order' = Grown(order, side, n) /\ side' = side * n
  /\ patches' = Append(patches, n) /\ UNCHANGED first
Spec == Init /\ [][Next]_<<first, patches, side, order>>

Numbers == [k \in DOMAIN order |-> order[k][1] * side + order[k][2]]
Inv == /\ IsPermutation(Numbers, side * side)
       /\ \A i \in DOMAIN Sides(first, patches) :
            KeepsSquares(Numbers, side, Sides(first, patches)[i])
(* every wave number but the corner itself lies in exactly one shell            *)
Shells == patches = <<>> =>
  \A n \in {2 * side, 2 * side + 1} : \A a, b \in Freqs(n) :
    Cardinality({i \in 1..19 : ~Below(n, a, b, i - 1) /\ Below(n, a, b, i)}) =
      (IF On(n, a, b, 19) THEN 0 ELSE 1)
Emits == Emit /\ patches # <<>> =>
  PrintT("CASE " \o ToJson([kind |-> "perm", first |-> first, patches |-> patches, size |-> side]))
=============================================================================
