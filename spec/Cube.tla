-------------------------------- MODULE Cube --------------------------------
(***************************************************************************)
(* The n-dimensional cube with n^d grid points in lexicographic order: its  *)
(* facets and its symmetries.  Multi-indices are sequences over 0..n-1;     *)
(* flat positions are 0-based.                                             *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

RECURSIVE IPow(_, _)
IPow(a, b) == IF b = 0 THEN 1 ELSE a * IPow(a, b - 1)

Multi(k, d, n) == [i \in 1..d |-> (k \div IPow(n, d - i)) % n]
RECURSIVE FlatOf(_, _)
FlatOf(m, n) == IF m = <<>> THEN 0
                ELSE m[Len(m)] + n * FlatOf(SubSeq(m, 1, Len(m) - 1), n)
Grid(d, n) == IF n = 0 /\ d > 0 THEN {} ELSE {Multi(k, d, n) : k \in 0..(IPow(n, d) - 1)}

(* A facet is its centre in the reference cube: -1 first, 0 inner, 1 last.  *)
Facets(d) == [1..d -> {-1, 0, 1}]
FacetDim(f) == Cardinality({i \in DOMAIN f : f[i] = 0})
OnFacet(m, f, n) == \A i \in DOMAIN f : CASE f[i] = -1 -> m[i] = 0
                                          [] f[i] = 1 -> m[i] = n - 1
                                          [] OTHER -> TRUE
Inside(m, f, n) == /\ OnFacet(m, f, n)
                   /\ \A i \in DOMAIN f : f[i] = 0 => m[i] > 0 /\ m[i] < n - 1
(* the flat positions of a facet's nodes, in lexicographic order *)
Ordered(d, n, P(_)) == SelectSeq([k \in 1..IPow(n, d) |-> k - 1],
                                 LAMBDA k : P(Multi(k, d, n)))
FacetNodes(f, n) == Ordered(Len(f), n, LAMBDA m : OnFacet(m, f, n))
InnerNodes(f, n) == Ordered(Len(f), n, LAMBDA m : Inside(m, f, n))

(* Symmetries: axis permutation followed by reversal of some axes.          *)
Perms(d) == {p \in [1..d -> 1..d] : \A i, j \in 1..d : p[i] = p[j] => i = j}
Syms(d) == Perms(d) \X SUBSET (1..d)
(* where the point at multi-index m of the reoriented cube comes from       *)
Act(g, m, n) == LET at(k) == IF k \in g[2] THEN n - 1 - m[k] ELSE m[k]
                IN [a \in DOMAIN m |-> at(CHOOSE k \in DOMAIN m : g[1][k] = a)]
(* the reoriented cube as the sequence of the original flat positions       *)
Orient(g, d, n) == [k \in 1..IPow(n, d) |-> FlatOf(Act(g, Multi(k - 1, d, n), n), n)]

Reorder(seq, perm) == [k \in DOMAIN perm |-> seq[perm[k] + 1]]
=============================================================================
