------------------------------ MODULE LatentDef -------------------------------
(***************************************************************************)
(* The stochastic processor of the closure network: drift (posterior and        *)
(* prior), diffusion and the rate of divergence between the two.              *)
(***************************************************************************)
EXTENDS NetworkDef

(* kernel [input][head][part], bias [head][part] as one matrix, one vector      *)
Merge(v) == [i \in 1..(Len(v) * Len(v[1])) |-> v[((i - 1) \div Len(v[1])) + 1][((i - 1) % Len(v[1])) + 1]]
Joined(p) == [kernel |-> [i \in DOMAIN p.kernel |-> Merge(p.kernel[i])], bias |-> Merge(p.bias)]
SelfAttention(p, x) ==
  CHOOSE r \in {Out(p.out, Attend(q, k, v, Len(p.query.bias)))
    : q \in {Dense(Joined(p.query), x)}, k \in {Dense(Joined(p.key), x)}, v \in {Dense(Joined(p.value), x)}} : TRUE
Block(p, x) ==
  CHOOSE r \in {
    Plus(Mlp(p.MlpBlock_0, Norm(p.LayerNorm_1, h)), h)
    : h \in {Plus(SelfAttention(p.MultiHeadDotProductAttention_0, Norm(p.LayerNorm_0, x)), x)}} : TRUE
RECURSIVE Blocks(_, _, _, _)
Blocks(p, name, x, n) ==
  IF n = 0 THEN x ELSE CHOOSE r \in {Block(p[Name(name \o "_dynamics_block_", n - 1)], y)
                                     : y \in {Blocks(p, name, x, n - 1)}} : TRUE
Field(p, name, x, n) ==
  Dense(p[name \o "_decoded_patches"], Norm(p[name \o "_dynamics_norm"], Blocks(p, name, x, n)))
RECURSIVE Layers(_, _, _, _)
Layers(p, x, i, n) ==      \* tanh between the layers, exp after the last one
  CHOOSE r \in {
    IF i = n THEN [j \in DOMAIN y |-> Exp(y[j])]
    ELSE Layers(p, [j \in DOMAIN y |-> Tanh(y[j])], i + 1, n)
    : y \in {Dense(p[Name("Dense_", i)], <<x>>)[1]}} : TRUE

Tokens2(v, w) == [i \in 1..(Len(v) \div w) |-> SubSeq(v, (i - 1) * w + 1, i * w)]
Flatten(x) == Force(Merge(x))
Ratio(a, b) == IF RLe(RAbs(b), "1/100000000") THEN "0" ELSE R(RDiv(a, b))
(* state y: the latent values and the divergence so far.  The prior sees the    *)
(* latent tokens and the time; the posterior also those of the starting point.  *)
Dynamics(p, layers, w, y, t, dw, ctx) ==
  CHOOSE r \in {
    LET n == Len(y) - 1
        tokens == n \div w
        cut(v) == Flatten(SubSeq(v, 1, tokens))
    IN CHOOSE s \in {
         [drift |-> Append(post, RDiv(VSum([i \in 1..n |-> CHOOSE a \in {
                      RMul(q, q) : q \in {Ratio(RSub(post[i], prior[i]), sigma[i])}} : TRUE]), 2)),
          diff |-> Append([i \in 1..n |-> R(RMul(dw[i], sigma[i]))], "0")]
         : post \in {cut(Field(p, "posterior_drift", x \o Tokens2(ctx, w), layers))},
           prior \in {cut(Field(p, "prior_drift", x, layers))},
           sigma \in {Force([i \in 1..n |-> Layers(p.diffusion_mlp, <<y[i]>>, 0, layers)[1]])}} : TRUE
    : x \in {Append(Tokens2(SubSeq(y, 1, Len(y) - 1), w), [i \in 1..w |-> t])}} : TRUE
=============================================================================
