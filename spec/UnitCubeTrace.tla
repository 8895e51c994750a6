---------------------------- MODULE UnitCubeTrace ----------------------------
(* Recorded unit_cube_mesh.  Nodes are recognised by their coordinates.     *)
EXTENDS TraceBase, UnitCubeDef, BigRat

Near(c, x, i) == RNear(x, RAdd(c.a, RDiv(RMul(i, RSub(c.b, c.a)), c.n)), c.tol)
(* position of a node: multi-index, or <<>> *)
PosOf(c, xy) ==
  IF \A i \in 1..c.d : \E k \in 0..c.n : Near(c, xy[i], k)
  THEN [i \in 1..c.d |-> CHOOSE k \in 0..c.n : Near(c, xy[i], k)]
  ELSE <<>>

Clauses(c, t) ==
  LET pos == Force([x \in 0..(Len(t.coords) - 1) |-> PosOf(c, t.coords[x + 1])])
      per == SetOf(c.per)
      pts(f) == [k \in DOMAIN f |-> pos[f[k]]]
      sameLinks(l) == {<<l[1][k], l[2][k]>> : k \in DOMAIN l[1]}
      either(l) == {sameLinks(l), sameLinks(<<l[2], l[1]>>)}
      groups == IF "boundary" \in DOMAIN t.groups THEN t.groups["boundary"] ELSE <<>>
      block(e) == LET sh == c.blocks IN
                  [i \in 1..c.d |-> e[i] \div (c.n \div sh[i])]
      RECURSIVE idx(_, _)
      idx(b, i) == IF i = 0 THEN 0 ELSE idx(b, i - 1) * c.blocks[i] + b[i]
  IN  Clause("grid_of_nodes", /\ Len(t.coords) = IPow(c.n + 1, c.d)
                              /\ {pos[x] : x \in DOMAIN pos} = Grid(c.d, c.n + 1))
      \cup Clause("each_element_once",
             /\ Len(t.elements) = IPow(c.n, c.d)
             /\ {pts(t.elements[e]) : e \in DOMAIN t.elements} = {ElemNodes(e) : e \in Elements(c.d, c.n)})
      \cup Clause("links_join_opposite_facets",
             /\ Len(t.links) = Cardinality(Links(c.d, c.n, per))
             /\ {either(<<pts(t.links[i][1]), pts(t.links[i][2])>>) : i \in DOMAIN t.links}
                  = {either(l) : l \in Links(c.d, c.n, per)})
      \cup Clause("boundary_is_the_rest",
             /\ DOMAIN t.groups = IF Boundary(c.d, c.n, per) = {} THEN {} ELSE {"boundary"}
             /\ Len(groups) = Cardinality(Boundary(c.d, c.n, per))
             /\ {SetOf(pts(groups[i])) : i \in DOMAIN groups} = Boundary(c.d, c.n, per))
      \cup Clause("partitions",
             IF c.blocks = <<>> THEN t.partitions = <<>>
             ELSE /\ Len(t.partitions) = Len(t.elements)
                  /\ \A e \in DOMAIN t.elements :
                       t.partitions[e] = c.ids[idx(block(pos[t.elements[e][1]]), c.d) + 1])

TraceFailing(t) ==
  LET c == t.case IN
  IF t.outcome # "ok" THEN {"returns"}
  ELSE IF \/ \E e \in DOMAIN t.elements : Len(t.elements[e]) # IPow(2, c.d)
          \/ \E i \in DOMAIN t.links : Len(t.links[i][1]) # IPow(2, c.d - 1)
  THEN {"shapes"}
  ELSE Clauses(c, t)
=============================================================================
