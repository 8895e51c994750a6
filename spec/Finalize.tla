------------------------------- MODULE Finalize -------------------------------
(***************************************************************************)
(* Distributing the elements of a mesh over partitions.  Elements are       *)
(* placed one after the other; then nodes are identified along periodic     *)
(* links, and an assembly (scatter of element contributions followed by an  *)
(* exchange) runs on the partitioned mesh.  The result at every copy of a   *)
(* node must be that of the unpartitioned mesh.                             *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS Nodes, Elems, Parts, MaxLinks, Emit

VARIABLES elems, links, group, part, local, acc, pc
vars == <<elems, links, group, part, local, acc, pc>>

N == 0..(Nodes - 1)
Pairs == {p \in N \X N : p[1] # p[2]}
Links == {p \in N \X N : p[1] < p[2]}
Slots == (1..Elems) \X (1..2)             \* <<element, corner>>

RECURSIVE Close(_, _)
Close(S, ls) == LET T == S \cup {x \in N : \E l \in ls : (l[1] \in S /\ l[2] = x) \/ (l[2] \in S /\ l[1] = x)}
                IN IF T = S THEN S ELSE Close(T, ls)
Class(x) == Close({x}, links)
Used(p) == {x \in N : \E e \in DOMAIN part : part[e] = p /\ x \in {elems[e][1], elems[e][2]}}
Refused == \E p \in 1..Parts : \E x, y \in Used(p) : x # y /\ y \in Class(x)

Init ==
  /\ elems \in [1..Elems -> Pairs]
  /\ \A i, j \in 1..Elems : i # j => {elems[i][1], elems[i][2]} # {elems[j][1], elems[j][2]}
  /\ links \in {L \in SUBSET Links : Cardinality(L) <= MaxLinks}
  /\ group \in SUBSET N
  /\ part = <<>> /\ local = [p \in 1..Parts |-> {}] /\ acc = <<>> /\ pc = "place"

Place ==
  /\ pc = "place" /\ Len(part) < Elems
  /\ \E p \in 1..Parts :
       /\ part' = Append(part, p)
       /\ local' = [local EXCEPT ![p] = @ \cup {elems[Len(part) + 1][1], elems[Len(part) + 1][2]}]
  /\ UNCHANGED <<elems, links, group, acc, pc>>

Identify ==
  /\ pc = "place" /\ Len(part) = Elems
  /\ pc' = IF Refused THEN "refused" ELSE "assemble"
  /\ IF Emit
     THEN PrintT("CASE " \o ToJson([nodes |-> Nodes, elems |-> elems, links |-> links,
                                    group |-> group, parts |-> part, refused |-> Refused]))
     ELSE TRUE
  /\ UNCHANGED <<elems, links, group, part, local, acc>>

Own(p, x) == {s \in Slots : part[s[1]] = p /\ elems[s[1]][s[2]] = x}
Assemble ==      \* scatter within each partition
  /\ pc = "assemble"
  /\ acc' = [p \in 1..Parts |-> [x \in N |-> IF x \in local[p] THEN Own(p, x) ELSE {}]]
  /\ pc' = "exchange" /\ UNCHANGED <<elems, links, group, part, local>>
Exchange ==      \* every copy of a class gets the union over its copies
  /\ pc = "exchange"
  /\ acc' = [p \in 1..Parts |-> [x \in N |->
       IF x \in local[p] THEN UNION {acc[q][y] : q \in 1..Parts, y \in Class(x)} ELSE {}]]
  /\ pc' = "done" /\ UNCHANGED <<elems, links, group, part, local>>
Next == Place \/ Identify \/ Assemble \/ Exchange
Spec == Init /\ [][Next]_vars

LocalIsUsed == pc # "place" => \A p \in 1..Parts : local[p] = Used(p)
DisjointContributions == pc = "exchange" =>
  \A p, q \in 1..Parts : \A x, y \in N : <<p, x>> # <<q, y>> => acc[p][x] \cap acc[q][y] = {}
Unpartitioned(x) == {s \in Slots : elems[s[1]][s[2]] \in Class(x)}
Invariance == pc = "done" =>
  \A p \in 1..Parts : \A x \in local[p] : acc[p][x] = Unpartitioned(x)
Inv == LocalIsUsed /\ DisjointContributions /\ Invariance
=============================================================================
