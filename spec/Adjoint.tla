-------------------------------- MODULE Adjoint --------------------------------
(***************************************************************************)
(* Derivatives through programs of finite element operations on devices.       *)
(* A program acts on a field u of one copy per device and node; its tangent v    *)
(* is carried along.  Then a cotangent w is pulled back through the operations   *)
(* in reverse, each replaced by the transpose of its derivative: squaring by      *)
(* doubling, a mask by itself, element matrices (symmetric) by themselves, the    *)
(* exchange Q Q' by itself.  The pairing of w and v never changes.               *)
(***************************************************************************)
EXTENDS BigRat, Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS Meshes, NumDevices, MaxLength, Seeds, Emit
VARIABLES mesh, owner, seed, prog, hist, w, back
vars == <<mesh, owner, seed, prog, hist, w, back>>
Devices == 1..NumDevices
Operations == {"square", "mask", "apply", "exchange"}

M(name) ==
  CASE name = "interval" -> [els |-> <<<<1, 2>>, <<2, 3>>, <<3, 4>>>>, dof |-> <<1, 2, 3, 4>>, fixed |-> {1}]
    [] name = "ring"     -> [els |-> <<<<1, 2>>, <<2, 3>>, <<3, 4>>>>, dof |-> <<1, 2, 3, 1>>, fixed |-> {}]
    [] name = "square"   -> [els |-> <<<<1, 2, 4, 5>>, <<2, 3, 5, 6>>, <<4, 5, 7, 8>>, <<5, 6, 8, 9>>>>,
                             dof |-> <<1, 2, 3, 4, 5, 6, 7, 8, 9>>, fixed |-> {1, 2, 3}]
    [] name = "cylinder" -> [els |-> <<<<1, 2, 4, 5>>, <<2, 3, 5, 6>>, <<4, 5, 7, 8>>, <<5, 6, 8, 9>>>>,
                             dof |-> <<1, 2, 1, 3, 4, 3, 5, 6, 5>>, fixed |-> {1, 2, 3}]
ToSet(q) == {q[i] : i \in DOMAIN q}
Own(m, p) == UNION {ToSet(m.els[e]) : e \in {e \in DOMAIN m.els : owner[e] = p}}
Slots(m) == {s \in Devices \X (DOMAIN m.dof) : s[2] \in Own(m, s[1])}
RECURSIVE SumOver(_, _)
SumOver(f, S) == IF S = {} THEN "0" ELSE LET o == CHOOSE o \in S : TRUE IN RAdd(f[o], SumOver(f, S \ {o}))
Entry(K, e, i, j) == IF i = j THEN e * (K - 1) + 1 ELSE -e
Pairing(f, g) == SumOver([s \in DOMAIN f |-> RMul(f[s], g[s])], DOMAIN f)
Corners(m, s) == {c \in (DOMAIN m.els) \X (1..Len(m.els[1])) : owner[c[1]] = s[1] /\ m.els[c[1]][c[2]] = s[2]}

(* the linear operations                                                      *)
Masked(m, f) == [s \in DOMAIN f |-> IF s[2] \in m.fixed THEN "0" ELSE f[s]]
Applied(m, f) == [s \in DOMAIN f |-> SumOver(
  [c \in Corners(m, s) |-> VSum([j \in 1..Len(m.els[1]) |->
     RMul(Entry(Len(m.els[1]), c[1], c[2], j), f[<<s[1], m.els[c[1]][j]>>])])], Corners(m, s))]
Exchanged(m, f) == [s \in DOMAIN f |->
  LET S == {o \in DOMAIN f : m.dof[o[2]] = m.dof[s[2]]} IN SumOver([o \in S |-> f[o]], S)]
Linear(m, op, f) == CASE op = "mask" -> Masked(m, f) [] op = "apply" -> Applied(m, f) [] OTHER -> Exchanged(m, f)

Step(m, op, s) ==
  IF op = "square"
  THEN [u |-> [k \in DOMAIN s.u |-> RMul(s.u[k], s.u[k])],
        v |-> [k \in DOMAIN s.u |-> RMul(2, RMul(s.u[k], s.v[k]))]]
  ELSE [u |-> Linear(m, op, s.u), v |-> Linear(m, op, s.v)]
Pull(m, op, s, f) ==     \* s: the state before the operation
  IF op = "square" THEN [k \in DOMAIN f |-> RMul(2, RMul(s.u[k], f[k]))] ELSE Linear(m, op, f)

Value(m, s, a, b) == ToString(((a * m.dof[s[2]] * m.dof[s[2]] + b * m.dof[s[2]]) % 7) - 3)
Some(s, a) == ToString(((a * s[1] + 3 * s[2]) % 5) - 2)
Init == /\ mesh \in Meshes
        /\ owner \in [DOMAIN M(mesh).els -> Devices]
        /\ seed \in Seeds
        /\ prog = <<>>
        /\ \E m \in {M(mesh)} : hist = <<[u |-> [s \in Slots(m) |-> Value(m, s, seed, 1)],
                                          v |-> [s \in Slots(m) |-> Value(m, s, 1, seed)]]>>
        /\ w = <<>>
        /\ back = 0
Forward == /\ back = 0 /\ Len(prog) < MaxLength
           /\ \E op \in Operations :
                /\ prog' = Append(prog, op)
                /\ \E s \in {Step(M(mesh), op, hist[Len(hist)])} : hist' = Append(hist, s)
           /\ UNCHANGED <<mesh, owner, seed, w, back>>
Turn == /\ back = 0 /\ prog # <<>>
        /\ back' = Len(hist)
        /\ w' = [s \in DOMAIN hist[1].u |-> Some(s, seed)]
        /\ UNCHANGED <<mesh, owner, seed, prog, hist>>
Backward == /\ back > 1
            /\ back' = back - 1
            /\ \E f \in {Pull(M(mesh), prog[back - 1], hist[back - 1], w)} : w' = f
            /\ UNCHANGED <<mesh, owner, seed, prog, hist>>
Next == Forward \/ Turn \/ Backward
Spec == Init /\ [][Next]_vars

(* the cotangent at any stage pairs with the tangent there as at the end        *)
Invariant == back > 0 =>
  REq(Pairing(w, hist[back].v), Pairing([s \in DOMAIN w |-> Some(s, seed)], hist[Len(hist)].v))
(* after an exchange the copies agree, of the tangent as well                   *)
Agree == (prog # <<>> /\ back = 0 /\ prog[Len(prog)] = "exchange") => \A h \in {hist[Len(hist)]} :
  \A s, o \in DOMAIN h.u : M(mesh).dof[s[2]] = M(mesh).dof[o[2]] => REq(h.u[s], h.u[o]) /\ REq(h.v[s], h.v[o])
(* the tangent is the derivative: differences of the square are off by v * v     *)
Tangent == (Len(prog) = 1 /\ back = 0) => \A a \in {hist[1]} :
  \A t \in {Step(M(mesh), prog[1], [u |-> [s \in DOMAIN a.u |-> RAdd(a.u[s], a.v[s])], v |-> a.v])} :
    \A s \in DOMAIN a.u : REq(RSub(t.u[s], hist[2].u[s]),
      RAdd(hist[2].v[s], IF prog[1] = "square" THEN RMul(a.v[s], a.v[s]) ELSE "0"))
Emits == (Emit /\ back = 1 /\ seed = (CHOOSE s \in Seeds : \A o \in Seeds : s <= o)) => PrintT("CASE " \o ToJson(
  [mesh |-> mesh, owner |-> owner, prog |-> prog,
   refused |-> \E p \in Devices : \E i, j \in Own(M(mesh), p) : i # j /\ M(mesh).dof[i] = M(mesh).dof[j]]))
=============================================================================
