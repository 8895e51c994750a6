----------------------------- MODULE FinalizeTrace -----------------------------
(* Recorded Premesh.finalize and the operations of the resulting Mesh.      *)
(* Every node of a case has its own coordinates, which tell which node a    *)
(* slot of a partition is a copy of: local numberings are not prescribed.   *)
EXTENDS TraceBase, MeshDef

Prop == IOEnv.PROP

NodeAt(c, xy) == LET S == {i \in DOMAIN c.coords : c.coords[i] = xy}
                 IN IF S = {} THEN -1 ELSE (CHOOSE i \in S : TRUE) - 1

ElemsOf(c, p) == {e \in DOMAIN c.elements : c.partitions = <<>> \/ c.partitions[e] = p - 1}
NumParts(c) == IF c.partitions = <<>> THEN 1 ELSE 1 + MaxOf(RangeOf(c.partitions))

(* padding slots have no dof, padding elements no nodes *)
Real(t, p) == {s \in DOMAIN t.node_indices[p] : t.node_indices[p][s] # -1}
RealElems(t, p) == {e \in DOMAIN t.elements[p] : \E k \in DOMAIN t.elements[p][e] : t.elements[p][e][k] # -1}

Shapes(c, t) ==
  LET K == Len(c.elements[1])
      P == NumParts(c)
  IN  /\ Len(t.node_indices) = P /\ Len(t.elements) = P /\ Len(t.coords) = P
      /\ \A p \in 1..P : LET S == Len(t.node_indices[p]) IN
           /\ Len(t.coords[p]) = S
           /\ \A e \in DOMAIN t.elements[p] :
                Len(t.elements[p][e]) = K
                /\ \A k \in 1..K : t.elements[p][e][k] \in -1..(S - 1)
           /\ DOMAIN t.masks = DOMAIN c.groups
           /\ \A m \in DOMAIN t.masks : Len(t.masks[m]) = P /\ Len(t.masks[m][p]) = S
           /\ \A f \in {"assembled", "scattered", "exchanged"} :
                Len(t[f]) = P /\ Len(t[f][p]) = S
           /\ Len(t.gathered) = P /\ Len(t.gathered[p]) = Len(t.elements[p])
           /\ Len(t.elem_coords) = P /\ Len(t.elem_coords[p]) = Len(t.elements[p])

Clauses(c, t) ==
  LET P == NumParts(c)
      K == Len(c.elements[1])
      rep == Reps(Len(c.coords), c.links)
      node == TLCEval([p \in 1..P |-> [s \in Real(t, p) |-> NodeAt(c, t.coords[p][s])]])
      slots == UNION {{p} \X Real(t, p) : p \in 1..P}
      known == \A x \in slots : node[x[1]][x[2]] >= 0
      (* node of corner k of element slot e *)
      corner(p, e, k) == LET s == t.elements[p][e][k]
                         IN IF s = -1 \/ s + 1 \notin Real(t, p) THEN -1 ELSE node[p][s + 1]
      used(p) == UNION {RangeOf(c.elements[e]) : e \in ElemsOf(c, p)}
      all == IF c.partitions = <<>> THEN {i - 1 : i \in DOMAIN c.coords} ELSE {}
      groupClasses(m) == {rep[x] : x \in UNION {RangeOf(f) : f \in RangeOf(c.groups[m])}}
      occurrences == UNION {{e} \X (1..K) : e \in DOMAIN c.elements}
      assembly == TLCEval([r \in {rep[i] : i \in DOMAIN rep} |->
                     SumAll({o \in occurrences : rep[c.elements[o[1]][o[2]]] = r},
                            LAMBDA o : c.u[c.elements[o[1]][o[2]] + 1] * o[2])])
      copies == TLCEval([r \in {rep[i] : i \in DOMAIN rep} |->
                   SumAll({x \in slots : rep[node[x[1]][x[2]]] = r},
                          LAMBDA x : c.u[node[x[1]][x[2]] + 1])])
  IN
  IF ~known THEN {"coordinates"} ELSE
  (IF Prop # "C06" THEN {} ELSE
    Clause("nodes_of_partition",
      \A p \in 1..P : /\ {node[p][s] : s \in Real(t, p)} = used(p) \cup all
                      /\ Cardinality(Real(t, p)) = Cardinality(used(p) \cup all))
    \cup Clause("each_element_once",
      \A p \in 1..P :
        LET placed == {[k \in 1..K |-> corner(p, e, k)] : e \in RealElems(t, p)}
        IN  /\ placed = {c.elements[e] : e \in ElemsOf(c, p)}
            /\ Cardinality(RealElems(t, p)) = Cardinality(ElemsOf(c, p)))
    \cup Clause("assembly_as_unpartitioned",
      \A x \in slots : REq(t.assembled[x[1]][x[2]], assembly[rep[node[x[1]][x[2]]]])))
  \cup
  (IF Prop # "C07" THEN {} ELSE
    Clause("identification",
      \A x, y \in slots :
         (t.node_indices[x[1]][x[2]] = t.node_indices[y[1]][y[2]])
           <=> (rep[node[x[1]][x[2]]] = rep[node[y[1]][y[2]]]))
    \cup Clause("own_coordinates",      \* of every node that has a copy
      \A p \in 1..P : {node[p][s] : s \in Real(t, p)} = used(p) \cup all)
    \cup Clause("masks",
      \A m \in DOMAIN t.masks : \A p \in 1..P : \A s \in DOMAIN t.masks[m][p] :
         t.masks[m][p][s] = (s \in Real(t, p) /\ rep[node[p][s]] \in groupClasses(m)))
    \cup Clause("sum_over_images",
      \A x \in slots : REq(t.exchanged[x[1]][x[2]], copies[rep[node[x[1]][x[2]]]])))
  \cup
  (IF Prop # "C08" THEN {} ELSE
    Clause("gather",
      \A p \in 1..P : \A e \in DOMAIN t.elements[p] : \A k \in 1..K :
         LET s == t.elements[p][e][k] IN
         REq(t.gathered[p][e][k],
             IF s = -1 THEN 0 ELSE IF s + 1 \in Real(t, p) THEN c.u[node[p][s + 1] + 1] ELSE "nan"))
    \cup Clause("element_coordinates",
      \A p \in 1..P : \A e \in DOMAIN t.elements[p] : \A k \in 1..K :
         t.elements[p][e][k] # -1 =>
           EqSeq(t.elem_coords[p][e][k], t.coords[p][t.elements[p][e][k] + 1]))
    \cup Clause("scatter_is_the_adjoint_of_gather",
      \A p \in 1..P : \A s \in Real(t, p) :
         REq(t.scattered[p][s],
             SumAll({o \in (DOMAIN t.elements[p]) \X (1..K) : t.elements[p][o[1]][o[2]] = s - 1},
                    LAMBDA o : 7 * o[1] + o[2])))
    \cup Clause("any_number_type",
      /\ t.typed.types = <<"complex64", "complex128", "int32", "int32">>
      /\ \A p \in 1..P :
           /\ \A s \in Real(t, p) : \A m \in 1..3 :
                REq(t.typed.scatter[m][p][s], RMul(<<1, -2, 1>>[m], t.scattered[p][s]))
           /\ \A e \in DOMAIN t.elements[p] : \A k \in 1..K : \A m \in 1..3 :
                REq(t.typed.gather[m][p][e][k], RMul(<<2, 1, 1>>[m], t.gathered[p][e][k])))
    \cup Clause("rejects_wrong_shapes", t.rejects))

TraceFailing(t) ==
  LET c == t.case
      rep == Reps(Len(c.coords), c.links)
      dup == /\ c.partitions # <<>>
             /\ \E p \in 1..NumParts(c) :
                  \E x, y \in UNION {RangeOf(c.elements[e]) : e \in ElemsOf(c, p)} :
                     x # y /\ rep[x] = rep[y]
  IN
  IF dup THEN Clause("refuses_periodicity_within_a_partition",
                     t.outcome = "ok" /\ t.refused)
  ELSE IF t.outcome # "ok" \/ t.refused THEN {"returns"}
  ELSE IF ~Shapes(c, t) THEN {"shapes"}
  ELSE Clauses(c, t)
=============================================================================
