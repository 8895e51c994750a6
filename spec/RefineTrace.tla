------------------------------ MODULE RefineTrace ------------------------------
(* Recorded refinements of first order meshes.  C10: elements and nodes;    *)
(* C11: groups, periodic links, partitions.                                *)
EXTENDS TraceBase, RefineDef, SequencesExt, BigRat

Prop == IOEnv.PROP
ToS(s) == {s[i] : i \in DOMAIN s}

(* coordinates of a point: combination of the vertices' coordinates         *)
RECURSIVE W(_, _, _, _)
W(b, m, pts, i) == IF i = 0 THEN "1"
                   ELSE RMul(RDiv(IF b[i] = 1 THEN RAdd(1, pts[m[i] + 1])
                                  ELSE RSub(1, pts[m[i] + 1]), 2), W(b, m, pts, i - 1))

Conformity(c, t) ==
  LET N == c.order
      d == c.ndim
      n == N + 1
      K == IPow(n, d)
      occ == (DOMAIN c.elements) \X (1..K)
      id(o) == t.elements[o[1]][o[2]]
      used == Force({id(o) : o \in occ})
      pairs == Force({<<PointKey(c.elements[o[1]], Multi(o[2] - 1, d, n), N), id(o)>> : o \in occ})
      lone == {x \in 0..(Len(c.coords) - 1) : \A e \in DOMAIN c.elements : x \notin ToS(c.elements[e])}
      W1 == Force([k \in 1..K |-> [j \in 1..IPow(2, d) |->
              W(Multi(j - 1, d, 2), Multi(k - 1, d, n), t.points, d)]])
  IN  IF c.continuous
      THEN Clause("same_node_iff_same_point",
              /\ Cardinality(pairs) = Cardinality({p[1] : p \in pairs})
              /\ Cardinality(pairs) = Cardinality({p[2] : p \in pairs}))
           \cup Clause("no_spare_nodes",
              \/ ToS([i \in 1..Len(t.coords) |-> i - 1]) = used
              \/ Len(t.coords) <= Cardinality(used) + Cardinality(lone))
      ELSE Clause("elements_share_no_nodes",
              Cardinality(used) = Cardinality(occ) /\ Len(t.coords) = Cardinality(used))
  \cup Clause("node_positions",
       \A o \in occ : \A a \in 1..d :
          RNear(t.coords[id(o) + 1][a],
                VDot(W1[o[2]], [j \in 1..IPow(2, d) |-> c.coords[c.elements[o[1]][j] + 1][a]]),
                "1p-30"))

Boundary(c, t) ==
  LET N == c.order
      d == c.ndim
      n == N + 1
      K == IPow(n, d)
      KF == IPow(n, d - 1)
      keyOf == Force([x \in UNION {ToS(t.elements[e]) : e \in DOMAIN t.elements} |->
                  LET o == CHOOSE o \in (DOMAIN c.elements) \X (1..K) : t.elements[o[1]][o[2]] = x
                  IN PointKey(c.elements[o[1]], Multi(o[2] - 1, d, n), N)])
      (* weights of a point in an element are N times those in its facet *)
      facetKeys(f) == [k \in 1..KF |-> {<<w[1], N * w[2]>> :
                         w \in PointKey(f, Multi(k - 1, d - 1, n), N)}]
      known(f) == \A k \in DOMAIN f : f[k] \in DOMAIN keyOf
      keys(f) == [k \in DOMAIN f |-> keyOf[f[k]]]
      pairs(a, b) == {<<a[k], b[k]>> : k \in DOMAIN a}
  IN  IF c.continuous
      THEN Clause("groups",
              /\ DOMAIN t.groups = DOMAIN c.groups
              /\ \A g \in DOMAIN c.groups :
                   /\ Len(t.groups[g]) = Len(c.groups[g])
                   /\ \A i \in DOMAIN t.groups[g] : Len(t.groups[g][i]) = KF /\ known(t.groups[g][i])
                   /\ {ToS(keys(t.groups[g][i])) : i \in DOMAIN t.groups[g]}
                        = {ToS(facetKeys(c.groups[g][i])) : i \in DOMAIN c.groups[g]})
           \cup Clause("periodic_links",
              /\ Len(t.links) = Len(c.links)
              /\ \A i \in DOMAIN t.links : \A s \in 1..2 : Len(t.links[i][s]) = KF /\ known(t.links[i][s])
              /\ {pairs(keys(t.links[i][1]), keys(t.links[i][2])) : i \in DOMAIN t.links}
                   = {pairs(facetKeys(c.links[i][1]), facetKeys(c.links[i][2])) : i \in DOMAIN c.links})
      ELSE {}
  \cup Clause("partitions", t.partitions = c.partitions)

Shapes(c, t) ==
  /\ t.order = c.order /\ t.ndim = c.ndim /\ t.same_type
  /\ Len(t.points) = c.order + 1
  /\ Len(t.elements) = Len(c.elements)
  /\ \A e \in DOMAIN t.elements :
       /\ Len(t.elements[e]) = IPow(c.order + 1, c.ndim)
       /\ \A k \in DOMAIN t.elements[e] : t.elements[e][k] \in 0..(Len(t.coords) - 1)
  /\ \A i \in DOMAIN t.coords : Len(t.coords[i]) = c.ndim

TraceFailing(t) ==
  IF t.outcome # "ok" THEN {"returns"}
  ELSE IF ~Shapes(t.case, t) THEN {"shapes"}
  ELSE IF Prop = "C10" THEN Conformity(t.case, t) ELSE Boundary(t.case, t)
=============================================================================
