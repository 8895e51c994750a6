------------------------------ MODULE CubeTrace ------------------------------
(* Recorded facet_util: facet types, slices, and the table of orderings.    *)
EXTENDS TraceBase, Cube, SequencesExt

ToS(s) == {s[i] : i \in DOMAIN s}
NoDup(s) == Cardinality(ToS(s)) = Len(s)

Lookup(t) == Clause("ordering_of_the_same_symmetry",
                    t.found /\ t.value = t.case.value)

Table(t) ==
  LET d == t.case.d
      n == t.case.n
  IN  Clause("one_entry_per_symmetry",
         /\ NoDup([i \in DOMAIN t.entries |-> t.entries[i][1]])
         /\ Len(t.entries) = Cardinality(Syms(d)))
      \cup Clause("ordering_of_the_same_symmetry",
         {t.entries[i] : i \in DOMAIN t.entries}
           = {<<Orient(g, d, 2), IF n = 0 THEN <<>> ELSE Orient(g, d, n)>> : g \in Syms(d)})

FacetClauses(t) ==
  LET d == t.case.d
      n == t.case.n
      all == [i \in DOMAIN t.facets |-> t.facets[i].type]
  IN  Clause("each_facet_once", NoDup(all) /\ ToS(all) = Facets(d))
      \cup Clause("facets_of_a_dimension",
         \A k \in 0..d : NoDup(t.by_dim[k + 1])
                         /\ ToS(t.by_dim[k + 1]) = {f \in Facets(d) : FacetDim(f) = k})
      \cup Clause("nodes_of_a_facet",
         \A i \in DOMAIN t.facets : t.facets[i].closed = FacetNodes(t.facets[i].type, n))
      \cup Clause("inner_nodes_of_a_facet",
         \A i \in DOMAIN t.facets : t.facets[i].inner = InnerNodes(t.facets[i].type, n))

TraceFailing(t) ==
  IF t.outcome # "ok" THEN {"returns"}
  ELSE CASE t.case.kind = "lookup" -> Lookup(t)
         [] t.case.kind = "table" -> Table(t)
         [] OTHER -> FacetClauses(t)
=============================================================================
