---------------------------- MODULE CrystalRouter ----------------------------
(***************************************************************************)
(* The crystal router: sparse all-to-all delivery over an axis of np        *)
(* devices, in stages that halve the groups of devices, with a bounded      *)
(* buffer that is grown when a stage would overflow it.                     *)
(*                                                                          *)
(* A message is [src, j, tgt]: slot j of device src, addressed to tgt.      *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS MaxP,     \* axis sizes 1..MaxP
          MinP,
          Slots,    \* static length of the arrays on each device
          MaxTotal, \* bound on the number of messages in a behaviour
          Emit      \* print the initial states as cases for the code

VARIABLES np, lo, size, box, buf, phase, sent

vars == <<np, lo, size, box, buf, phase, sent>>

Dev == 0..(np - 1)
BitCeil(n) == CHOOSE b \in {0, 1, 2, 4, 8, 16, 32, 64} :
                /\ b >= n
                /\ \A c \in {0, 1, 2, 4, 8, 16, 32, 64} : c >= n => b <= c
Max(S) == CHOOSE x \in S : \A y \in S : y <= x

(* ---- what delivery means (used by the trace specification as well) ---- *)
Addressed(msgs, q) == {m \in msgs : m.tgt = q}
Delivered(msgs, boxes, devs) == \A q \in devs : boxes[q] = Addressed(msgs, q)

Seqs(p) == UNION {[1..k -> 0..(p - 1)] : k \in 0..Slots}
Msgs(p, tgts) == {[src |-> d, j |-> k, tgt |-> tgts[d][k]] :
                    <<d, k>> \in {<<d, k>> \in (0..(p-1)) \X (1..Slots) : k \in DOMAIN tgts[d]}}

RECURSIVE SumLen(_, _)
SumLen(tgts, d) == IF d < 0 THEN 0 ELSE Cardinality(DOMAIN tgts[d]) + SumLen(tgts, d - 1)

Init ==
  \E p \in MinP..MaxP :
    \E tgts \in [0..(p-1) -> Seqs(p)] :
      /\ SumLen(tgts, p - 1) <= MaxTotal
      /\ np = p
      /\ sent = Msgs(p, tgts)
      /\ box = [d \in 0..(p-1) |-> {m \in Msgs(p, tgts) : m.src = d}]
      /\ lo = [d \in 0..(p-1) |-> 0]
      /\ size = [d \in 0..(p-1) |-> p]
      /\ buf = BitCeil(Slots)
      /\ phase = "route"
      /\ IF Emit THEN PrintT("CASE " \o ToJson(
                       [P |-> p, L |-> Slots,
                        targets |-> [d \in 1..p |-> tgts[d-1]]]))
                 ELSE TRUE

(* The stage that splits the group [lo, lo+n) of device d into two halves. *)
NLo(d) == (size[d] + 1) \div 2
Cut(d) == lo[d] + NLo(d)
IsLo(d) == d < Cut(d)
Split(d) == size[d] > 1
Sends(d) == IF ~Split(d) THEN {}
            ELSE {m \in box[d] : IF IsLo(d) THEN m.tgt >= Cut(d) ELSE m.tgt < Cut(d)}
Mirror(d) == 2 * lo[d] + size[d] - 1 - d
Partner(d) == IF ~Split(d) THEN d
              ELSE IF Mirror(d) = d THEN Cut(d)   \* middle of an odd group
              ELSE Mirror(d)
NextBox == [d \in Dev |-> (box[d] \ Sends(d))
                          \cup UNION {Sends(e) : e \in {e \in Dev : e # d /\ Partner(e) = d}}]
Load == Max({Cardinality(NextBox[d]) : d \in Dev})

Unsplit == \E d \in Dev : Split(d)

Stage ==
  /\ phase = "route" /\ Unsplit
  /\ Load <= buf
  /\ box' = NextBox
  /\ lo' = [d \in Dev |-> IF IsLo(d) THEN lo[d] ELSE Cut(d)]
  /\ size' = [d \in Dev |-> IF ~Split(d) THEN 1
                            ELSE IF IsLo(d) THEN NLo(d) ELSE size[d] - NLo(d)]
  /\ UNCHANGED <<np, buf, phase, sent>>

Grow ==   \* the stage would overflow: nothing moves, the buffer is enlarged
  /\ phase = "route" /\ Unsplit
  /\ Load > buf
  /\ buf' = BitCeil(Load)
  /\ UNCHANGED <<np, lo, size, box, phase, sent>>

Finish ==
  /\ phase = "route" /\ ~Unsplit
  /\ phase' = "done"
  /\ UNCHANGED <<np, lo, size, box, buf, sent>>

Next == Stage \/ Grow \/ Finish
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

(* ------------------------------ properties ------------------------------ *)
Conserved ==     \* every message is in exactly one box
  /\ UNION {box[d] : d \in Dev} = sent
  /\ \A d, e \in Dev : d # e => box[d] \cap box[e] = {}
Confined ==      \* a message is in the group of devices that holds its target
  \A d \in Dev : \A m \in box[d] : lo[d] <= m.tgt /\ m.tgt < lo[d] + size[d]
Fits == \A d \in Dev : Cardinality(box[d]) <= buf
InDegree ==      \* nobody receives from more than two devices in a stage
  \A d \in Dev : Cardinality({e \in Dev : e # d /\ Partner(e) = d}) <= 2
DoneDelivered == phase = "done" => Delivered(sent, box, Dev)
Inv == Conserved /\ Confined /\ Fits /\ InDegree /\ DoneDelivered
Terminates == <>(phase = "done")
=============================================================================
