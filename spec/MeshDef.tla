------------------------------- MODULE MeshDef -------------------------------
(***************************************************************************)
(* Vocabulary of meshes: identification of nodes by periodic links, copies  *)
(* of degrees of freedom, sums over copies, gather and scatter.             *)
(* Nodes are numbered from 0; sequences are 1-based.                        *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, SequencesExt, BigRat

Range0(n) == 0..(n - 1)
MinOf(S) == CHOOSE x \in S : \A y \in S : x <= y
MaxOf(S) == CHOOSE x \in S : \A y \in S : y <= x
RangeOf(s) == {s[i] : i \in DOMAIN s}

(* Pairs of nodes connected by a list of links <<facet, facet>>. *)
LinkPairs(links) == {<<links[i][1][j], links[i][2][j]>> :
                       <<i, j>> \in UNION {{i} \X DOMAIN links[i][1] : i \in DOMAIN links}}

(* Representative of each node: the least node connected with it.           *)
RECURSIVE Merge(_, _)
Merge(rep, pairs) ==
  IF pairs = {} THEN rep
  ELSE LET p == CHOOSE p \in pairs : TRUE
           a == rep[p[1]]
           b == rep[p[2]]
       IN  Merge(TLCEval(IF a = b THEN rep
                 ELSE LET lo == IF a < b THEN a ELSE b
                          hi == IF a < b THEN b ELSE a
                      IN [i \in DOMAIN rep |-> IF rep[i] = hi THEN lo ELSE rep[i]]),
                 pairs \ {p})
Reps(n, links) == TLCEval(Merge(TLCEval([i \in Range0(n) |-> i]), LinkPairs(links)))

(* Sum of f over a finite set (exact numbers). *)
SumAll(S, f(_)) == LET s == SetToSeq(S) IN VSum([i \in DOMAIN s |-> f(s[i])])

EqSeq(a, b) == Len(a) = Len(b) /\ \A i \in DOMAIN a : REq(a[i], b[i])
=============================================================================
