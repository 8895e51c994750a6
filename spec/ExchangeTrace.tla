----------------------------- MODULE ExchangeTrace -----------------------------
(* Recorded exchanges.  ids[p][s] is the global number of the node in slot  *)
(* s of partition p (before periodicity), links identifies numbers, u holds *)
(* one or two (real, imaginary) components of values.                       *)
EXTENDS TraceBase, MeshDef

Same(ids, rep, c, d) ==
  LET x == ids[c[1]][c[2]]
      y == ids[d[1]][d[2]]
  IN  x >= 0 /\ y >= 0 /\ rep[x] = rep[y]

TraceFailing(t) ==
  LET c == t.case
      cells == UNION {{p} \X DOMAIN c.ids[p] : p \in DOMAIN c.ids}
      rep == Reps(c.nodes, c.links)
      dup == \E a, b \in cells : a # b /\ a[1] = b[1] /\ Same(c.ids, rep, a, b)
  IN
  IF c.partitioned /\ dup
  THEN Clause("refuses_periodicity_within_a_partition",
              t.outcome = "ok" /\ t.refused)
  ELSE IF t.outcome # "ok" \/ t.refused THEN {"returns"}
  ELSE
    Clause("dtype", t.dtype = c.dtype)
    \cup Clause("identification",      \* equal numbers iff the same dof
       /\ Len(t.unique) = Len(c.ids)
       /\ \A p \in DOMAIN c.ids : Len(t.unique[p]) = Len(c.ids[p])
       /\ \A a, b \in cells :
            IF c.ids[a[1]][a[2]] < 0 THEN t.unique[a[1]][a[2]] = c.ids[a[1]][a[2]]
            ELSE c.ids[b[1]][b[2]] >= 0 =>
               ((t.unique[a[1]][a[2]] = t.unique[b[1]][b[2]]) <=> Same(c.ids, rep, a, b)))
    \cup Clause("sum_of_all_copies",
       /\ Len(t.out) = Len(c.u)
       /\ \A k \in DOMAIN c.u :
            /\ Len(t.out[k]) = Len(c.ids)
            /\ \A p \in DOMAIN c.ids : Len(t.out[k][p]) = Len(c.ids[p])
            /\ \A a \in cells :
                 REq(t.out[k][a[1]][a[2]],
                     IF c.ids[a[1]][a[2]] < 0 THEN c.u[k][a[1]][a[2]]
                     ELSE SumAll({b \in cells : Same(c.ids, rep, a, b)},
                                 LAMBDA b : c.u[k][b[1]][b[2]])))
=============================================================================
