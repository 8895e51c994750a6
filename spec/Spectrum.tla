------------------------------- MODULE Spectrum -------------------------------
(***************************************************************************)
(* Velocity fields on 4 x 4 points, built from waves and moved about: where     *)
(* their energies are found.                                                   *)
(***************************************************************************)
EXTENDS SpectrumDef, TLC, Json
CONSTANTS MaxWaves, Amplitudes, Emit
VARIABLES waves, shift        \* waves: a sequence of [k, l, dir, amp]
vars == <<waves, shift>>
N == 4
Cs == Cosines(N)
Sn == Sines(N)
Ks == {<<0, 0>>, <<1, 0>>, <<0, 1>>, <<1, 1>>, <<1, 3>>, <<2, 0>>, <<2, 1>>, <<1, 2>>, <<2, 2>>}

Init == waves = <<>> /\ shift = <<0, 0>>
Add == /\ Len(waves) < MaxWaves /\ shift = <<0, 0>>
       /\ \E k \in Ks, dir \in {1, 2}, a \in Amplitudes :
            waves' = Append(waves, [k |-> k[1], l |-> k[2], dir |-> dir, amp |-> a])
       /\ UNCHANGED shift
Move == /\ waves # <<>>
        /\ \E d \in {<<1, 0>>, <<0, 1>>} :
             shift' = <<(shift[1] + d[1]) % N, (shift[2] + d[2]) % N>>
        /\ UNCHANGED waves
Next == Add \/ Move
Spec == Init /\ [][Next]_vars

(* of 2 pi m / 4                                                               *)
Cos4(m) == CASE m % 4 = 0 -> 1 [] m % 4 = 2 -> -1 [] OTHER -> 0
RECURSIVE Sum(_, _, _, _)
Sum(w, dir, x, y) ==
  IF w = <<>> THEN 0
  ELSE (IF w[1].dir = dir THEN w[1].amp * Cos4(w[1].k * x + w[1].l * y) ELSE 0) + Sum(Tail(w), dir, x, y)
Field(w, dir, s) == [i \in 1..N |-> [j \in 1..N |-> Sum(w, dir, i - 1 + s[1], j - 1 + s[2])]]
Of(w, s) == Energies(Cs, Sn, Field(w, 1, s), Field(w, 2, s))
Square(u) == VSum([i \in 1..N |-> VDot(u[i], u[i])])
Near0(a, b) == RNear(a, b, "1p-90")
At(e, k, l) == e[((k + 2) % N) + 1][((l + 2) % N) + 1]

Inv == \A e \in {Of(waves, shift)} :
  (* nothing is lost                                                            *)
  /\ Near0(Total(e), RMul(N * N, RDiv(RAdd(Square(Field(waves, 1, shift)), Square(Field(waves, 2, shift))), 2)))
  (* real fields                                                               *)
  /\ \A k, l \in 0..(N - 1) : Near0(At(e, k, l), At(e, (N - k) % N, (N - l) % N))
  (* it does not matter where the field is, ...                                 *)
  /\ shift # <<0, 0>> => \A f \in {Of(waves, <<0, 0>>)} : \A k, l \in 1..N : Near0(e[k][l], f[k][l])
  (* ... only what it consists of                                               *)
  /\ Len(waves) = 1 => \A k, l \in 0..(N - 1) :
       LET w == waves[1]
           own == {<<w.k, w.l>>, <<(N - w.k) % N, (N - w.l) % N>>}
           size == IF Cardinality(own) = 1 THEN N * N ELSE (N * N) \div 2
       IN  Near0(At(e, k, l), IF <<k, l>> \in own THEN RDiv(RMul(w.amp * w.amp, size * size), 2) ELSE 0)
(* all but the corner lie in the shells                                         *)
Shells == waves = <<>> => \A n \in {2, 3, 4, 5, 7, 8} :
  UNION {Shell(n, i) : i \in 1..19} = {p \in (1..n) \X (1..n) : ~On(n, p[1] - 1 - (n \div 2), p[2] - 1 - (n \div 2), 19)}
Emits == (Emit /\ Len(waves) = MaxWaves) =>
  PrintT("CASE " \o ToJson([u |-> Field(waves, 1, shift), v |-> Field(waves, 2, shift)]))
=============================================================================
