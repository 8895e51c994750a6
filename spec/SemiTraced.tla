------------------------------ MODULE SemiTraced ------------------------------
(***************************************************************************)
(* Scalars that are known for every index of a mapped axis at compile time  *)
(* and for the own index at run time.  Programs are stack programs over the *)
(* axis index, the axis size and constants; the two views must agree.       *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS Sizes, MaxSteps, Emit

(* meaning of an instruction, for index i of an axis of size n *)
BoolInt(b) == IF b THEN 1 ELSE 0
RECURSIVE Pow(_, _)
Pow(a, b) == IF b = 0 THEN 1 ELSE a * Pow(a, b - 1)
RECURSIVE BitOp(_, _, _)
BitOp(op, a, b) ==      \* on naturals
  IF a = 0 /\ b = 0 THEN 0
  ELSE LET x == a % 2
           y == b % 2
           r == CASE op = "and" -> x * y
                  [] op = "xor" -> (x + y) % 2
                  [] op = "or" -> IF x + y > 0 THEN 1 ELSE 0
       IN  r + 2 * BitOp(op, a \div 2, b \div 2)
Apply(op, a, b) ==
  CASE op = "add" -> a + b
    [] op = "sub" -> a - b
    [] op = "mul" -> a * b
    [] op = "floordiv" -> a \div b
    [] op = "mod" -> a % b
    [] op = "pow" -> Pow(a, b)
    [] op = "lshift" -> a * Pow(2, b)
    [] op = "rshift" -> a \div Pow(2, b)
    [] op \in {"and", "xor", "or"} -> BitOp(op, a, b)
    [] op = "lt" -> BoolInt(a < b)
    [] op = "le" -> BoolInt(a <= b)
    [] op = "eq" -> BoolInt(a = b)
    [] op = "ne" -> BoolInt(a # b)
    [] op = "gt" -> BoolInt(a > b)
    [] op = "ge" -> BoolInt(a >= b)
Ok(op, a, b) ==      \* defined, and small enough for machine integers
  CASE op \in {"floordiv", "mod"} -> b > 0
    [] op = "pow" -> b >= 0 /\ b <= 4 /\ a >= -9 /\ a <= 9
    [] op \in {"lshift", "rshift"} -> b >= 0 /\ b <= 8
    [] op \in {"and", "xor", "or"} -> a >= 0 /\ b >= 0
    [] OTHER -> TRUE
Binary == {"add", "sub", "mul", "floordiv", "mod", "pow", "lshift", "rshift",
           "and", "xor", "or", "lt", "le", "eq", "ne", "gt", "ge"}

Instr == [op : {"index", "size"}] \cup [op : {"const"}, c : {0, 2, 3}]
         \cup [op : Binary]                        \* scalar op scalar
         \cup [op : {"where"}]                     \* where(x # 0, y, z) of the top three
         \cup [op : {"right"}, f : Binary, c : {1, 2}]   \* scalar op constant
         \cup [op : {"left"}, f : Binary, c : {1, 2}]    \* constant op scalar

(* Step of one index: stack -> stack, or Undef *)
Undef == <<-2000000000>>
Exec(ins, st, i, n) ==
  LET k == Len(st)
      top == st[k]
      drop(m) == SubSeq(st, 1, k - m)
  IN CASE ins.op = "index" -> Append(st, i)
       [] ins.op = "size" -> Append(st, n)
       [] ins.op = "const" -> Append(st, ins.c)
       [] ins.op \in Binary ->
            IF k < 2 \/ ~Ok(ins.op, st[k-1], top) THEN Undef
            ELSE Append(drop(2), Apply(ins.op, st[k-1], top))
       [] ins.op = "where" ->
            IF k < 3 THEN Undef
            ELSE Append(drop(3), IF st[k-2] # 0 THEN st[k-1] ELSE top)
       [] ins.op = "right" ->
            IF k < 1 \/ ~Ok(ins.f, top, ins.c) THEN Undef
            ELSE Append(drop(1), Apply(ins.f, top, ins.c))
       [] ins.op = "left" ->
            IF k < 1 \/ ~Ok(ins.f, ins.c, top) THEN Undef
            ELSE Append(drop(1), Apply(ins.f, ins.c, top))

VARIABLES n, prog, local, global   \* local[i]: the stack run by index i
vars == <<n, prog, local, global>>

Init == \E s \in Sizes :
          /\ n = s /\ prog = <<>>
          /\ local = [i \in 0..(s-1) |-> <<>>]
          /\ global = <<>>           \* stack of functions of the index

(* The global view executes the instruction on whole arrays. *)
Lift(ins, g) ==
  LET col(i) == [k \in DOMAIN g |-> g[k][i]]
      res == [i \in 0..(n-1) |-> Exec(ins, col(i), i, n)]
      depth == Len(res[0])
  IN  [k \in 1..depth |-> [i \in 0..(n-1) |-> res[i][k]]]

Next ==
  \E ins \in Instr :
    /\ Len(prog) < MaxSteps
    /\ \A i \in 0..(n-1) : Exec(ins, local[i], i, n) # Undef
    /\ Len(local[0]) <= MaxSteps \div 2 + 1
    /\ prog' = Append(prog, ins)
    /\ local' = [i \in 0..(n-1) |-> Exec(ins, local[i], i, n)]
    /\ global' = Lift(ins, global)
    /\ UNCHANGED n
    /\ IF Emit /\ Len(prog') = MaxSteps /\ Len(local'[0]) = 1
       THEN PrintT("CASE " \o ToJson([n |-> n, prog |-> prog'])) ELSE TRUE
Spec == Init /\ [][Next]_vars

Agree == \A k \in DOMAIN global : \A i \in 0..(n-1) : global[k][i] = local[i][k]
SameDepth == \A i \in 0..(n-1) : Len(local[i]) = Len(global)
Inv == Agree /\ SameDepth
=============================================================================
