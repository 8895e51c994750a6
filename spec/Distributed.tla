------------------------------ MODULE Distributed ------------------------------
(***************************************************************************)
(* Conjugate gradients on a mesh whose elements are spread over devices,        *)
(* beside the same on the whole mesh.  A device holds one copy of every node    *)
(* of its elements.  It applies its own element matrices; an exchange adds up   *)
(* the copies of a degree of freedom (periodic images included); products of    *)
(* fields weigh every copy by the inverse of their number.                      *)
(***************************************************************************)
EXTENDS CGDef, Json
CONSTANTS Meshes, NumDevices, Loads, Emit
VARIABLES mesh, owner, load, whole, dist
vars == <<mesh, owner, load, whole, dist>>
Devices == 1..NumDevices

(* elements, degree of freedom of every node                                   *)
M(name) ==
  CASE name = "interval" -> [els |-> <<<<1, 2>>, <<2, 3>>, <<3, 4>>>>, dof |-> <<1, 2, 3, 4>>]
    [] name = "ring"     -> [els |-> <<<<1, 2>>, <<2, 3>>, <<3, 4>>>>, dof |-> <<1, 2, 3, 1>>]
    [] name = "square"   -> [els |-> <<<<1, 2, 4, 5>>, <<2, 3, 5, 6>>, <<4, 5, 7, 8>>, <<5, 6, 8, 9>>>>,
                             dof |-> <<1, 2, 3, 4, 5, 6, 7, 8, 9>>]
    [] name = "cylinder" -> [els |-> <<<<1, 2, 4, 5>>, <<2, 3, 5, 6>>, <<4, 5, 7, 8>>, <<5, 6, 8, 9>>>>,
                             dof |-> <<1, 2, 1, 3, 4, 3, 5, 6, 5>>]
    [] name = "torus"    -> [els |-> <<<<1, 2, 4, 5>>, <<2, 3, 5, 6>>, <<4, 5, 7, 8>>, <<5, 6, 8, 9>>>>,
                             dof |-> <<1, 2, 1, 3, 4, 3, 1, 2, 1>>]
ToSet(q) == {q[i] : i \in DOMAIN q}
Dofs(m) == ToSet(m.dof)
(* a symmetric, positive definite matrix of element e                          *)
Entry(K, e, i, j) == IF i = j THEN e * (K - 1) + 1 ELSE -e
Local(m, e, u) == [i \in DOMAIN u |-> VSum([j \in DOMAIN u |-> RMul(Entry(Len(u), e, i, j), u[j])])]

(* ---- the whole mesh ---------------------------------------------------------- *)
At(m, d) == {o \in (DOMAIN m.els) \X (1..Len(m.els[1])) : m.dof[m.els[o[1]][o[2]]] = d}
RECURSIVE SumOver(_, _)
SumOver(f, S) == IF S = {} THEN "0" ELSE LET o == CHOOSE o \in S : TRUE IN RAdd(f[o], SumOver(f, S \ {o}))
Apply(m, u) ==
  CHOOSE r \in {Force([d \in DOMAIN u |-> SumOver([o \in At(m, d) |-> l[o[1]][o[2]]], At(m, d))])
    : l \in {Force([e \in DOMAIN m.els |-> Local(m, e, [k \in DOMAIN m.els[e] |-> u[m.dof[m.els[e][k]]]])])}} : TRUE

(* ---- on the devices: fields are [device][node] -------------------------------- *)
Own(m, o, p) == UNION {ToSet(m.els[e]) : e \in {e \in DOMAIN m.els : o[e] = p}}
Scatter(m, o, u) ==
  CHOOSE r \in {[p \in Devices |-> [i \in Own(m, o, p) |->
      SumOver([c \in {c \in (DOMAIN m.els) \X (1..Len(m.els[1])) : o[c[1]] = p /\ m.els[c[1]][c[2]] = i} |-> l[c[1]][c[2]]],
              {c \in (DOMAIN m.els) \X (1..Len(m.els[1])) : o[c[1]] = p /\ m.els[c[1]][c[2]] = i})]]
    : l \in {Force([e \in DOMAIN m.els |-> Local(m, e, [k \in DOMAIN m.els[e] |-> u[o[e]][m.els[e][k]]])])}} : TRUE
Copies(m, o, d) == {c \in Devices \X (DOMAIN m.dof) : c[2] \in Own(m, o, c[1]) /\ m.dof[c[2]] = d}
Exchange(m, o, v) ==
  CHOOSE r \in {[p \in Devices |-> [i \in Own(m, o, p) |-> s[m.dof[i]]]]
    : s \in {Force([d \in 1..Cardinality(Dofs(m)) |->
               SumOver([c \in Copies(m, o, d) |-> v[c[1]][c[2]]], Copies(m, o, d))])}} : TRUE
DApply(m, o, u) == Exchange(m, o, Scatter(m, o, u))
AllSlots(m, o) == {c \in Devices \X (DOMAIN m.dof) : c[2] \in Own(m, o, c[1])}
DDot(m, o, u, v) ==
  SumOver([c \in AllSlots(m, o) |-> RDiv(RMul(u[c[1]][c[2]], v[c[1]][c[2]]), Cardinality(Copies(m, o, m.dof[c[2]])))], AllSlots(m, o))
Each(m, o, f(_, _)) == [p \in Devices |-> [i \in Own(m, o, p) |-> RRound(f(p, i), 200)]]

WStart(m, b) == [x |-> [d \in DOMAIN b |-> "0"], r |-> b, p |-> b, gamma |-> VDot(b, b), k |-> 0]
WStep(m, s) ==
  CHOOSE n \in {
    CHOOSE t \in {[x |-> VRound(VAdd(s.x, VScale(a, s.p)), 200), r |-> r,
                   p |-> VRound(VAdd(r, VScale(RDiv(g, s.gamma), s.p)), 200), gamma |-> g, k |-> s.k + 1]
                  : r \in {VRound(VSub(s.r, VScale(a, q)), 200)},
                    g \in {RRound(VDot(VSub(s.r, VScale(a, q)), VSub(s.r, VScale(a, q))), 200)}} : TRUE
    : a \in {RRound(RDiv(s.gamma, VDot(s.p, Apply(m, s.p))), 200)}, q \in {Apply(m, s.p)}} : TRUE
DStart(m, o, b) ==
  CHOOSE s \in {[x |-> Each(m, o, LAMBDA p, i : "0"), r |-> f, p |-> f, gamma |-> DDot(m, o, f, f), k |-> 0]
                : f \in {Each(m, o, LAMBDA p, i : b[m.dof[i]])}} : TRUE
DStep(m, o, s) ==
  CHOOSE n \in {
    CHOOSE t \in {
      CHOOSE v \in {[x |-> Each(m, o, LAMBDA p, i : RAdd(s.x[p][i], RMul(a, s.p[p][i]))), r |-> r,
                     p |-> Each(m, o, LAMBDA p, i : RAdd(r[p][i], RMul(RDiv(g, s.gamma), s.p[p][i]))),
                     gamma |-> g, k |-> s.k + 1]
                    : g \in {RRound(DDot(m, o, r, r), 200)}} : TRUE
      : r \in {Each(m, o, LAMBDA p, i : RSub(s.r[p][i], RMul(a, q[p][i])))}} : TRUE
    : a \in {RRound(RDiv(s.gamma, DDot(m, o, s.p, DApply(m, o, s.p))), 200)}, q \in {DApply(m, o, s.p)}} : TRUE

Load(m, l) == [d \in 1..Cardinality(Dofs(m)) |-> ToString(((l * d * d + d) % 7) - 2)]
Tiny == "1p-80"
Init == /\ mesh \in Meshes
        /\ owner \in [DOMAIN M(mesh).els -> Devices]
        /\ load \in Loads
        /\ whole = WStart(M(mesh), Load(M(mesh), load))
        /\ dist = DStart(M(mesh), owner, Load(M(mesh), load))
Next == /\ RLt(Tiny, whole.gamma)
        /\ \E s \in {WStep(M(mesh), whole)} : whole' = s
        /\ \E s \in {DStep(M(mesh), owner, dist)} : dist' = s
        /\ UNCHANGED <<mesh, owner, load>>
Spec == Init /\ [][Next]_vars

Near(a, b) == RNear(a, b, "1p-60")
(* every copy has the value of its degree of freedom                            *)
CopiesAgree == \A c \in AllSlots(M(mesh), owner) : \A d \in {M(mesh).dof[c[2]]} :
  /\ Near(dist.x[c[1]][c[2]], whole.x[d])
  /\ Near(dist.r[c[1]][c[2]], whole.r[d])
  /\ Near(dist.p[c[1]][c[2]], whole.p[d])
Together == Near(dist.gamma, whole.gamma)
(* the weights of the copies of a degree of freedom add up to one               *)
Weights == dist.k = 0 => \A one \in {Each(M(mesh), owner, LAMBDA p, i : "1")} :
  Near(DDot(M(mesh), owner, one, one), Cardinality(Dofs(M(mesh))))
(* applied to any field with equal copies                                       *)
SameOperator == dist.k = 0 => \A a \in {DApply(M(mesh), owner, dist.r)}, w \in {Apply(M(mesh), whole.r)} :
  \A c \in AllSlots(M(mesh), owner) : Near(a[c[1]][c[2]], w[M(mesh).dof[c[2]]])
InTime == whole.k <= Cardinality(Dofs(M(mesh))) + 1
Solved == ~RLt(Tiny, whole.gamma) => \A w \in {Apply(M(mesh), whole.x)} :
  \A d \in DOMAIN w : RNear(w[d], Load(M(mesh), load)[d], "1p-30")
Emits == (Emit /\ whole.k = 0) => PrintT("CASE " \o ToJson([mesh |-> mesh, owner |-> owner,
  (* (the code refuses devices which hold several images of a node)              *)
  refused |-> \E p \in Devices : \E i, j \in Own(M(mesh), owner, p) : i # j /\ M(mesh).dof[i] = M(mesh).dof[j]]))
=============================================================================
