------------------------------ MODULE SpectrumDef ------------------------------
(***************************************************************************)
(* Energies of the wave numbers of a plane velocity field, given on n x n        *)
(* points: half the squared modulus of its discrete Fourier transform, the       *)
(* wave number (0, 0) in the middle; and their sums over 18 shells.              *)
(* Fields: u[row][column]; cs, sn: tables of cos, sin of 2 pi j k / n.           *)
(***************************************************************************)
EXTENDS DatagenDef, MultiscaleDef

SpectrumBits == 120
Cosines(n) == LET c == Force([k \in 1..n |-> CosPi(RDiv(2 * (k - 1), n))])
              IN  Force([j \in 1..n |-> [k \in 1..n |-> c[(((j - 1) * (k - 1)) % n) + 1]]])
Sines(n) == LET s == Force([k \in 1..n |-> SinPi(RDiv(2 * (k - 1), n))])
            IN  Force([j \in 1..n |-> [k \in 1..n |-> s[(((j - 1) * (k - 1)) % n) + 1]]])
Transposed(m) == Force([j \in DOMAIN m[1] |-> [i \in DOMAIN m |-> m[i][j]]])
RowsBy(t, m) == Force([i \in DOMAIN m |-> VRound(MatVec(t, m[i]), SpectrumBits)])   \* every row by the (symmetric) t
(* squared moduli of the transform of a real field, wave numbers from (0, 0)     *)
Moduli(cs, sn, u) ==
  CHOOSE r \in {
    CHOOSE m \in {
      Force([i \in DOMAIN cs |-> [j \in DOMAIN cs |->
        LET re == RSub(a[i][j], b[i][j])
            im == RAdd(p[i][j], q[i][j])
        IN  RRound(RAdd(RMul(re, re), RMul(im, im)), SpectrumBits)]])
      : a \in {RowsBy(cs, c)}, b \in {RowsBy(sn, s)}, p \in {RowsBy(sn, c)}, q \in {RowsBy(cs, s)}} : TRUE
    : c \in {Transposed(RowsBy(cs, Transposed(u)))}, s \in {Transposed(RowsBy(sn, Transposed(u)))}} : TRUE
Centred(m) ==
  LET n == Len(m)
      at(i) == (((i - 1) + n - (n \div 2)) % n) + 1
  IN  Force([i \in 1..n |-> [j \in 1..n |-> m[at(i)][at(j)]]])
Energies(cs, sn, u, v) ==
  CHOOSE r \in {Centred([i \in DOMAIN a |-> [j \in DOMAIN a |-> RRound(RDiv(RAdd(a[i][j], b[i][j]), 2), SpectrumBits)]])
                : a \in {Moduli(cs, sn, u)}, b \in {Moduli(cs, sn, v)}} : TRUE
Total(e) == VSum([i \in DOMAIN e |-> VSum(e[i])])

(* wave numbers by shell                                                        *)
Shell(n, i) == {p \in (1..n) \X (1..n) :
  LET a == p[1] - 1 - (n \div 2)  b == p[2] - 1 - (n \div 2) IN ~Below(n, a, b, i - 1) /\ Below(n, a, b, i)}
=============================================================================
