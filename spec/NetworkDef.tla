------------------------------ MODULE NetworkDef ------------------------------
(***************************************************************************)
(* The layers of the closure network in exact arithmetic (rounded to Bits).   *)
(* A token is a vector; an activation is a sequence of tokens.  Parameters are  *)
(* records as recorded: kernels are [input][output].                           *)
(***************************************************************************)
EXTENDS BigRat, FiniteSets, TLC

Bits == 90
R(a) == RRound(a, Bits)
RV(v) == Force(VRound(v, Bits))
Seqs(n, f(_)) == Force([i \in 1..n |-> f(i)])
Cols(k) == Force([j \in 1..Len(k[1]) |-> [i \in 1..Len(k) |-> k[i][j]]])

(* ---- elementary functions ------------------------------------------------- *)
RECURSIVE Taylor(_, _, _)
Taylor(y, n, top) == IF n > top THEN "1"
  ELSE R(RAdd(1, RMul(RDiv(y, n), Taylor(y, n + 1, top))))
RECURSIVE Squares(_, _)
Squares(a, n) == IF n = 0 THEN a ELSE Squares(R(RMul(a, a)), n - 1)
(* e^x; x is beyond any doubt negligible below -100                            *)
Exp(x) == IF RLt(x, -100) THEN "0" ELSE Squares(Taylor(R(RMul(x, "1p-8")), 1, 16), 8)
Tanh(x) == LET a == RAbs(x)
               t == CHOOSE t \in {R(RDiv(RSub(1, e), RAdd(1, e))) : e \in {Exp(RMul(-2, a))}} : TRUE
           IN  IF RLt(x, 0) THEN RNeg(t) ELSE t
Pi == "31415926535897932384626433832795028841971693993751/10000000000000000000000000000000000000000000000000"
RootTwoOverPi == RSqrt(RDiv(2, Pi), 120)
Gelu(x) == R(RMul(RMul("1/2", x),
                  RAdd(1, Tanh(R(RMul(RootTwoOverPi, RAdd(x, RMul("44715/1000000", RMul(x, RMul(x, x)))))))))) 

(* ---- layers ---------------------------------------------------------------- *)
Has(p, f) == f \in DOMAIN p
Dense(p, x) ==     \* x: tokens
  CHOOSE y \in {Seqs(Len(x), LAMBDA i :
      LET v == MatVec(c, x[i]) IN RV(IF Has(p, "bias") THEN VAdd(v, p.bias) ELSE v))
    : c \in {Cols(p.kernel)}} : TRUE
Norm(p, x) == Seqs(Len(x), LAMBDA i :
  CHOOSE w \in {
    LET n == Len(x[i])
        mean == RDiv(VSum(x[i]), n)
        var == RSub(RDiv(VDot(x[i], x[i]), n), RMul(mean, mean))
        s == RDiv(1, RSqrt(R(RAdd(var, "1/1000000")), Bits))
        y == [j \in 1..n |-> RMul(RMul(RSub(x[i][j], mean), s), p.scale[j])]
    IN  RV(IF Has(p, "bias") THEN VAdd(y, p.bias) ELSE y)} : TRUE)
Plus(x, y) == Seqs(Len(x), LAMBDA i : VAdd(x[i], y[i]))
Mlp(p, x) == Dense(p.Dense_1, Seqs(Len(x), LAMBDA i : CHOOSE r \in {
   Force([j \in 1..Len(h[i]) |-> Gelu(h[i][j])]) : h \in {Dense(p.Dense_0, x)}} : TRUE))

(* softmax attention: every head has its part of the channels                  *)
Part(v, h, d) == SubSeq(v, (h - 1) * d + 1, h * d)
Attend(q, k, v, heads) ==
  LET d == Len(q[1]) \div heads
      root == RSqrt(d, Bits)
      one(h, i) ==
        CHOOSE o \in {
          CHOOSE y \in {
            LET e == Force([j \in 1..Len(k) |-> Exp(RSub(s[j], top))])
                sum == VSum(e)
            IN  RV([c \in 1..d |-> RDiv(VDot(e, [j \in 1..Len(k) |-> v[j][(h - 1) * d + c]]), sum)])
            : top \in {CHOOSE m \in {s[j] : j \in 1..Len(k)} : \A j \in 1..Len(k) : RLe(s[j], m)}} : TRUE
          : s \in {Force([j \in 1..Len(k) |-> R(RDiv(VDot(Part(q[i], h, d), Part(k[j], h, d)), root))])}} : TRUE
  IN  Seqs(Len(q), LAMBDA i :
        CHOOSE r \in {[c \in 1..(heads * d) |-> os[((c - 1) \div d) + 1][((c - 1) % d) + 1]]
                      : os \in {Force([h \in 1..heads |-> one(h, i)])}} : TRUE)

(* windows of `w` tokens every `s` tokens, padded evenly (more at the end)      *)
Pooled(x, w, s, op(_)) ==
  LET n == Len(x)
      m == (n + s - 1) \div s
      pad == LET p == (m - 1) * s + w - n IN IF p > 0 THEN p ELSE 0
      lo == pad \div 2
  IN  Seqs(m, LAMBDA i : [c \in 1..Len(x[1]) |->
        op([j \in {a \in 1..w : (i - 1) * s + a - lo \in 1..n} |-> x[(i - 1) * s + j - lo][c]])])
RECURSIVE Total(_, _)
Total(f, S) == IF S = {} THEN "0" ELSE LET a == CHOOSE a \in S : TRUE IN RAdd(f[a], Total(f, S \ {a}))
AvgPool(x, w, s) == IF w = 1 THEN x ELSE Pooled(x, w, s, LAMBDA f : R(RDiv(Total(f, DOMAIN f), w)))
MaxPool(x, w, s) == IF w = 1 THEN x ELSE
  Pooled(x, w, s, LAMBDA f : f[CHOOSE a \in DOMAIN f : \A b \in DOMAIN f : RLe(f[b], f[a])])
RECURSIVE Tile(_, _)
Tile(x, n) == IF n = 1 THEN x ELSE x \o Tile(x, n - 1)

(* kernel [head][part][output] of the projection after attention               *)
Flat(k) == [i \in 1..(Len(k) * Len(k[1])) |-> k[((i - 1) \div Len(k[1])) + 1][((i - 1) % Len(k[1])) + 1]]
Out(p, x) == Dense(IF Has(p, "bias") THEN [kernel |-> Flat(p.kernel), bias |-> p.bias] ELSE [kernel |-> Flat(p.kernel)], x)

Rest(p, x) ==     \* the second half of a block
  CHOOSE r \in {
    Plus(Mlp(p.MlpBlock_0, n), IF Has(p, "project_skip") THEN Dense(p.project_skip, n) ELSE x)
    : n \in {Norm(p.LayerNorm_1, x)}} : TRUE

EncoderBlock(p, x, heads, wq, sq, wkv, skv) ==
  CHOOSE y \in {
    LET a == p.MultiScaleAttentionDownSample_0
    IN CHOOSE r \in {
         LET o == Out(a.out, Plus(Attend(q, k, v, heads), q))
             res == IF sq > 1 THEN MaxPool(x, sq + 1, sq) ELSE x
         IN  Rest(p, Plus(o, res))
         : q \in {AvgPool(Dense(a.query, n), wq, sq)}, k \in {AvgPool(Dense(a.key, n), wkv, skv)},
           v \in {AvgPool(Dense(a.value, n), wkv, skv)}} : TRUE
    : n \in {Norm(p.LayerNorm_0, x)}} : TRUE
DecoderBlock(p, x, heads, reps) ==
  CHOOSE y \in {
    LET a == p.MultiScaleAttentionUpsample_0
    IN CHOOSE r \in {Rest(p, Plus(Out(a.out, Plus(Attend(q, k, v, heads), q)), Tile(x, reps)))
         : q \in {Tile(Dense(a.query, n), reps)}, k \in {Tile(Dense(a.key, n), reps)},
           v \in {Tile(Dense(a.value, n), reps)}} : TRUE
    : n \in {Norm(p.LayerNorm_0, x)}} : TRUE

(* ---- the pyramid: what every layer of a configuration c does ---------------- *)
Pools(c, l) == l \in {c.pooling[i] : i \in DOMAIN c.pooling}
Heads(c, l) == c.heads * 2 ^ Cardinality({i \in DOMAIN c.pooling : c.pooling[i] <= l /\ c.pooling[i] >= 0})
RECURSIVE Halves(_, _)
Halves(s, n) == IF n = 0 THEN s ELSE Halves(IF s > 1 THEN s \div 2 ELSE 1, n - 1)
KvStride(c, l) == Halves(c.kvstride, Cardinality({i \in DOMAIN c.pooling : c.pooling[i] <= l}))
Name(prefix, l) == prefix \o ToString(l)
RECURSIVE Encode(_, _, _, _)
Encode(c, p, x, l) ==      \* [x, skips] after l layers
  IF l = 0 THEN [x |-> x, skips |-> <<>>]
  ELSE CHOOSE r \in {
    LET i == l - 1
        pool == Pools(c, i)
    IN  [x |-> EncoderBlock(p[Name("block_", i)], h.x, Heads(c, i),
                            IF pool \/ c.everylayer THEN c.kernel ELSE 1, IF pool THEN c.stride ELSE 1,
                            c.kernel, KvStride(c, i)),
         skips |-> Append(h.skips, h.x)]
    : h \in {Encode(c, p, x, l - 1)}} : TRUE
RECURSIVE Decode(_, _, _, _, _)
Decode(c, p, x, skips, l) ==      \* from layer l on down
  IF l < 0 THEN x
  ELSE CHOOSE r \in {
    Decode(c, p, IF Pools(c, l) /\ c.residuals THEN Plus(y, skips[l + 1]) ELSE y, skips, l - 1)
    : y \in {DecoderBlock(p[Name("decoder_block_", l)], x, Len(x[1]) \div c.width,
                          IF Pools(c, l) THEN c.reps ELSE 1)}} : TRUE

Embedded(c, p, x) ==
  Plus(Dense(p.embedding, x), p.encoder_posembed.pos_embedding[1])
Encoded(c, p, x) ==      \* (through the final norm)
  CHOOSE r \in {[x |-> Norm(p.multiscale_encoder.encoder_norm, h.x), skips |-> h.skips]
                : h \in {Encode(c, p.multiscale_encoder, Embedded(c, p, x), c.depth)}} : TRUE
Decoded(c, p, x, skips) ==
  Norm(p.multiscale_decoder.decoder_norm, Decode(c, p.multiscale_decoder, x, skips, c.depth - 1))
Forward(c, p, x) ==
  Dense(p.decoded_patches,
        IF c.depth = 0 THEN Embedded(c, p, x)
        ELSE CHOOSE r \in {Decoded(c, p, e.x, e.skips) : e \in {Encoded(c, p, x)}} : TRUE)
=============================================================================
