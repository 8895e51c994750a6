-------------------------------- MODULE Pscan --------------------------------
(***************************************************************************)
(* Exclusive prefix scan and all-reduce by a binary fan-in and fan-out.     *)
(* Values are words over the devices (the free monoid), so that the model   *)
(* decides the order and multiplicity of the factors for every operation.   *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

CONSTANTS MaxP

VARIABLES np, level, dir, scan, red

vars == <<np, level, dir, scan, red>>
Dev == 0..(np - 1)

(* Groups [lo, hi) of devices at each depth of the tree, larger half first. *)
RECURSIVE Groups(_, _)
Groups(p, depth) ==
  IF depth = 0 THEN {<<0, p>>}
  ELSE UNION { LET n == g[2] - g[1]
                   c == g[1] + (n + 1) \div 2
               IN  IF n <= 1 THEN {g} ELSE {<<g[1], c>>, <<c, g[2]>>}
             : g \in Groups(p, depth - 1)}
Depth(p) == CHOOSE k \in 0..10 : /\ \A g \in Groups(p, k) : g[2] - g[1] <= 1
                                 /\ k > 0 => \E g \in Groups(p, k - 1) : g[2] - g[1] > 1
Cut(g) == g[1] + (g[2] - g[1] + 1) \div 2
SplitAt(p, k) == {g \in Groups(p, k) : g[2] - g[1] > 1}
BaseLo(p, k) == {g[1] : g \in SplitAt(p, k)}
BaseHi(p, k) == {Cut(g) : g \in SplitAt(p, k)}
Peer(p, k, d) == LET g == CHOOSE g \in SplitAt(p, k) : d \in {g[1], Cut(g)}
                 IN  IF d = g[1] THEN Cut(g) ELSE g[1]

Word(a, b) == [i \in 1..(b - a) |-> a + i - 1]   \* a, a+1, .., b-1

Init == \E p \in 1..MaxP :
          /\ np = p
          /\ level = Depth(p) - 1
          /\ dir = "in"
          /\ scan = [d \in 0..(p-1) |-> <<>>]
          /\ red = [d \in 0..(p-1) |-> <<d>>]

FanIn ==
  /\ dir = "in" /\ level >= 0
  /\ red' = [d \in Dev |->
       IF d \in BaseLo(np, level) THEN red[d] \o red[Peer(np, level, d)]
       ELSE IF d \in BaseHi(np, level) /\ level = 0
            THEN red[Peer(np, level, d)] \o red[d]
       ELSE red[d]]
  /\ scan' = [d \in Dev |->
       IF d \in BaseHi(np, level) THEN red[Peer(np, level, d)] ELSE scan[d]]
  /\ level' = level - 1
  /\ UNCHANGED <<np, dir>>

Turn == dir = "in" /\ level < 0 /\ dir' = "out" /\ level' = 1 /\ UNCHANGED <<np, scan, red>>

FanOut ==
  /\ dir = "out" /\ level < Depth(np)
  /\ scan' = [d \in Dev |-> IF d \in BaseHi(np, level)
                            THEN scan[Peer(np, level, d)] \o scan[d] ELSE scan[d]]
  /\ red' = [d \in Dev |-> IF d \in BaseHi(np, level)
                           THEN red[Peer(np, level, d)] ELSE red[d]]
  /\ level' = level + 1
  /\ UNCHANGED <<np, dir>>

Finish == dir = "out" /\ level >= Depth(np) /\ dir' = "done" /\ UNCHANGED <<np, level, scan, red>>
Next == FanIn \/ Turn \/ FanOut \/ Finish
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

Right == dir = "done" => \A d \in Dev : scan[d] = Word(0, d) /\ red[d] = Word(0, np)
(* during the fan-in the first device of a finished group holds its product *)
GroupProducts == dir = "in" => \A g \in Groups(np, level + 1) : red[g[1]] = Word(g[1], g[2])
(* once a level of the fan-out is done, the bases of the next groups hold their prefix *)
GroupPrefixes == dir = "out" =>
   \A g \in Groups(np, IF level <= Depth(np) THEN level ELSE Depth(np)) :
      scan[g[1]] = Word(0, g[1])
Inv == Right /\ GroupProducts /\ GroupPrefixes
Terminates == <>(dir = "done")
=============================================================================
