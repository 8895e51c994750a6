------------------------------ MODULE TimeScheme ------------------------------
(* Backward differentiation and extrapolation coefficients, oldest first.    *)
(* Times are 0..k; BDF: h u'(t_k); EXT: u(t_{k+1}).                         *)
EXTENDS Poly
Times(k) == [j \in 1..(k + 1) |-> j - 1]
Bdf(k) == Force([j \in 1..(k + 1) |-> DLag(Times(k), j, k)])
Ext(k) == Force([j \in 1..(k + 1) |-> Lag(Times(k), j, k + 1)])
=============================================================================
