-------------------------------- MODULE Newton --------------------------------
(***************************************************************************)
(* Interpolation by adding one node at a time, in any order (Newton's form). *)
(* Whatever the order, the result interpolates the data so far, reproduces   *)
(* polynomials of fitting degree, and is the combination of the data with    *)
(* the Lagrange basis: what an interpolation matrix consists of.            *)
(***************************************************************************)
EXTENDS Poly, Json
CONSTANTS Nodes, Probe, Emit      \* a set of integers; points to evaluate at
VARIABLES seen, q, w              \* order so far, interpolant, product of (x - node)

f(x) == LET y == x IN y * y * y - 4 * y + 1 + (IF y > 4 THEN 3 ELSE 0)
Init == seen = <<>> /\ q = <<"0">> /\ w = <<"1">>
SeenSet == {seen[i] : i \in DOMAIN seen}
Next == \E x \in Nodes \ SeenSet :
  /\ seen' = Append(seen, x)
  /\ q' = Force(PAdd(q, PScale(RDiv(RSub(f(x), PEval(q, x)), PEval(w, x)), w)))
  /\ w' = Force(PMul(w, <<RNeg(x), "1">>))
Spec == Init /\ [][Next]_<<seen, q, w>>
Strs == [i \in DOMAIN seen |-> ToString(seen[i])]
Interpolates == \A i \in DOMAIN seen : REq(PEval(q, seen[i]), f(seen[i]))
Combination == \A x \in Probe : seen # <<>> =>
  /\ REq(PEval(q, x), VSum([j \in DOMAIN seen |-> RMul(f(seen[j]), Lag(Strs, j, x))]))
  /\ REq(PEval(PDer(q), x), VSum([j \in DOMAIN seen |-> RMul(f(seen[j]), DLag(Strs, j, x))]))
Unity == \A x \in Probe : seen # <<>> =>
  /\ REq(VSum([j \in DOMAIN seen |-> Lag(Strs, j, x)]), 1)
  /\ REq(VSum([j \in DOMAIN seen |-> DLag(Strs, j, x)]), 0)
Inv == /\ Interpolates /\ Combination /\ Unity
       /\ (Emit /\ SeenSet = Nodes => PrintT("CASE " \o ToJson([n |-> Len(seen), order |-> seen])))
=============================================================================
