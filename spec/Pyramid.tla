------------------------------- MODULE Pyramid --------------------------------
(***************************************************************************)
(* The shapes in the closure network, layer by layer: an encoder that shortens *)
(* and widens at the pooling layers, and a decoder that mirrors it.            *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS MaxDepth, Tokens, Widths, Headss, Strides, KvStrides, Emit
VARIABLES cf, phase, l, tokens, width, heads, kv, skips, seen
vars == <<cf, phase, l, tokens, width, heads, kv, skips, seen>>

(* the stride to the power of the number of pooling layers divides the tokens  *)
Configs == {c \in [depth : 0..MaxDepth, pools : SUBSET (1..MaxDepth), tokens : Tokens, width : Widths,
                   heads : Headss, stride : Strides, kv : KvStrides] :
              /\ c.pools \subseteq 1..(c.depth - 1)
              /\ c.width % c.heads = 0
              /\ c.tokens % (c.stride ^ Cardinality(c.pools)) = 0}
Init == /\ cf \in Configs /\ phase = "encode" /\ l = 0
        /\ tokens = cf.tokens /\ width = cf.width /\ heads = cf.heads /\ kv = cf.kv
        /\ skips = [i \in {} |-> 0] /\ seen = {[tokens |-> tokens, width |-> width]}
Shape == [tokens |-> tokens, width |-> width]
Encode == /\ phase = "encode" /\ l < cf.depth
          /\ IF l \in cf.pools
             THEN /\ heads' = heads * 2 /\ kv' = (IF kv > 1 THEN kv \div 2 ELSE 1)
                  /\ tokens' = tokens \div cf.stride
                  /\ skips' = [i \in DOMAIN skips \cup {l} |-> IF i = l THEN Shape ELSE skips[i]]
             ELSE UNCHANGED <<heads, kv, tokens, skips>>
          /\ width' = (IF l + 1 \in cf.pools THEN 2 * width ELSE width)
          /\ seen' = seen \cup {[tokens |-> tokens', width |-> width']}
          /\ l' = l + 1 /\ UNCHANGED <<cf, phase>>
Turn == /\ phase = "encode" /\ l = cf.depth
        /\ phase' = "decode" /\ UNCHANGED <<cf, l, tokens, width, heads, kv, skips, seen>>
Decode == /\ phase = "decode" /\ l > 0
          /\ tokens' = (IF l - 1 \in cf.pools THEN tokens * cf.stride ELSE tokens)
          /\ width' = (IF l \in cf.pools THEN width \div 2 ELSE width)
          /\ heads' = width \div cf.width
          /\ l' = l - 1 /\ UNCHANGED <<cf, phase, kv, skips, seen>>
Finish == /\ phase = "decode" /\ l = 0 /\ phase' = "done"
          /\ UNCHANGED <<cf, l, tokens, width, heads, kv, skips, seen>>
Next == Encode \/ Turn \/ Decode \/ Finish
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

Whole == tokens > 0 /\ width > 0 /\ heads > 0 /\ kv > 0
HeadsDivide == width % heads = 0
(* the output of a decoder layer has the shape of the input of its counterpart  *)
Mirror == (phase = "decode" /\ l < cf.depth /\ l \in cf.pools) => skips[l] = Shape
Restored == phase = "done" => tokens = cf.tokens /\ width = cf.width
(* tokens are lost as fast as channels are gained                               *)
Volume == phase = "encode" =>
  LET n == Cardinality({i \in cf.pools : i < l})
      m == Cardinality({i \in cf.pools : i <= l})
  IN  tokens * cf.stride ^ n = cf.tokens /\ width = cf.width * 2 ^ m
Known == phase = "decode" => Shape \in seen
Emits == (Emit /\ phase = "done") => PrintT("CASE " \o ToJson(cf))
Done == <>(phase = "done")
=============================================================================
