------------------------------ MODULE PscanTrace ------------------------------
(* Recorded scans and reductions against folds over the devices.            *)
EXTENDS TraceBase, BigRat, Bitwise

(* "int" values are machine integers of w bits, "real" ones exact numbers.  *)
Wrap(v, leaf) == LET m == 2^leaf.w
                     u == v % m
                 IN  IF leaf.signed /\ u >= m \div 2 THEN u - m ELSE u
U(v, leaf) == IF v < 0 THEN v + 2^leaf.w ELSE v
FLe(a, b) == a = "-inf" \/ b = "inf" \/ (RNum(a) /\ RNum(b) /\ RLe(a, b))

Op(op, leaf, a, b) ==
  IF leaf.mode = "real"
  THEN CASE op = "add" -> RAdd(a, b)
         [] op = "multiply" -> RMul(a, b)
         [] op = "maximum" -> IF FLe(a, b) THEN b ELSE a
         [] op = "minimum" -> IF FLe(a, b) THEN a ELSE b
  ELSE CASE op = "add" -> Wrap(a + b, leaf)
         [] op = "multiply" -> Wrap(a * b, leaf)
         [] op = "maximum" -> IF a <= b THEN b ELSE a
         [] op = "minimum" -> IF a <= b THEN a ELSE b
         [] op = "bitwise_and" -> Wrap(U(a, leaf) & U(b, leaf), leaf)
         [] op = "bitwise_or" -> Wrap(U(a, leaf) | U(b, leaf), leaf)
         [] op = "bitwise_xor" -> Wrap(U(a, leaf) ^^ U(b, leaf), leaf)

Lowest(leaf) == IF leaf.mode = "real" THEN "-inf"
                ELSE IF leaf.signed THEN -(2^(leaf.w - 1)) ELSE 0
Highest(leaf) == IF leaf.mode = "real" THEN "inf"
                 ELSE IF leaf.signed THEN 2^(leaf.w - 1) - 1 ELSE 2^leaf.w - 1
Unit(op, leaf) ==
  CASE op \in {"add", "bitwise_or", "bitwise_xor"} -> IF leaf.mode = "real" THEN "0" ELSE 0
    [] op = "multiply" -> IF leaf.mode = "real" THEN "1" ELSE 1
    [] op = "maximum" -> Lowest(leaf)
    [] op = "minimum" -> Highest(leaf)
    [] op = "bitwise_and" -> IF leaf.signed THEN -1 ELSE 2^leaf.w - 1

RECURSIVE FoldTo(_, _, _, _)      \* of the entries j of devices 1..p
FoldTo(op, leaf, j, p) ==
  IF p = 0 THEN Unit(op, leaf)
  ELSE IF p = 1 THEN leaf.vals[1][j]
  ELSE Op(op, leaf, FoldTo(op, leaf, j, p - 1), leaf.vals[p][j])

Same(leaf, a, b) == IF leaf.mode = "real" THEN RSame(a, b) ELSE a = b

Agrees(c, got, want(_, _, _)) ==      \* leaf by leaf, device by device
  /\ Len(got) = Len(c.leaves)
  /\ \A l \in DOMAIN got :
       LET leaf == c.leaves[l]
       IN  /\ got[l].dtype = leaf.dtype
           /\ got[l].shape = leaf.shape
           /\ Len(got[l].vals) = c.P
           /\ \A p \in 1..c.P :
                 /\ Len(got[l].vals[p]) = Len(leaf.vals[p])
                 /\ \A j \in DOMAIN leaf.vals[p] :
                      Same(leaf, got[l].vals[p][j], want(leaf, j, p))

TraceFailing(t) ==
  IF t.outcome # "ok" THEN {"returns"} ELSE
  LET c == t.case
      pre(leaf, j, p) == FoldTo(c.op, leaf, j, p - 1)
      all(leaf, j, p) == FoldTo(c.op, leaf, j, c.P)
  IN  Clause("scan", Agrees(c, t.scan, pre))
      \cup Clause("scan_with_reduction", Agrees(c, t.scan2, pre))
      \cup Clause("reduction_of_scan", Agrees(c, t.red2, all))
      \cup Clause("reduction", Agrees(c, t.red, all))
=============================================================================
