------------------------------ MODULE MshTrace ------------------------------
(* Recorded mesh_reader.read of files with known contents.                  *)
EXTENDS TraceBase, MshDef, BigRat

Clauses(c, t) ==
  LET exp == Force(ExpectedLinks(c.facets, c.periodic, c.ndim))
      got == {<<t.links[i][1], t.links[i][2]>> : i \in DOMAIN t.links}
  IN  Clause("nodes_as_in_the_file",
         /\ Len(t.coords) = Len(c.coords)
         /\ \A i \in DOMAIN c.coords :
              /\ Len(t.coords[i]) = c.ndim
              /\ \A a \in 1..c.ndim : REq(t.coords[i][a], c.coords[i][a]))
      \cup Clause("elements_in_lexicographic_order",
         t.elements = [e \in DOMAIN c.cells |-> Lexicographic(c.cells[e], c.ndim)])
      \cup Clause("links_of_the_file",
         /\ got = exp /\ Len(t.links) = Cardinality(exp))
      \cup Clause("finalizes", t.finalizes)

TraceFailing(t) ==
  IF t.case.ndim > 1 /\ t.case.wrong_ndim
  THEN Clause("refuses_meshes_without_such_cells", t.outcome = "ok" /\ t.refused)
  ELSE IF t.outcome # "ok" THEN {"returns"} ELSE Clauses(t.case, t)
=============================================================================
