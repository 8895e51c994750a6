---------------------------- MODULE PartitionTrace ----------------------------
EXTENDS TraceBase, SequencesExt

ToS(s) == {s[i] : i \in DOMAIN s}
TraceFailing(t) ==
  LET c == t.case
      p == t.partitions
      n == Len(c.elements)
      E == 1..n
      near == TLCEval({x \in E \X E : x[1] < x[2] /\ ToS(c.elements[x[1]]) \cap ToS(c.elements[x[2]]) # {}})
      cut == Cardinality({x \in near : p[x[1]] # p[x[2]]})
      size(k) == Cardinality({e \in E : p[e] = k})
  IN
  IF t.outcome # "ok" THEN {"returns"} ELSE
  Clause("one_partition_per_element",
     Len(p) = n /\ \A e \in DOMAIN p : p[e] \in 0..(c.k - 1))
  \cup Clause("array_of_integers", t.integer_array)
  \cup Clause("rest_of_the_mesh_unchanged",
     /\ t.elements = c.elements /\ t.coords = c.coords /\ t.groups = c.groups
     /\ t.links = c.links)
  \cup Clause("deterministic", t.again = p)
  \cup (IF Len(p) # n THEN {} ELSE
    Clause("balanced", \A k \in 0..(c.k - 1) : c.k * size(k) <= n + c.slack * c.k)
    \cup Clause("small_cut", cut <= c.bound))
=============================================================================
