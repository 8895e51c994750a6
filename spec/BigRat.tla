------------------------------- MODULE BigRat -------------------------------
(***************************************************************************)
(* Exact rational numbers of any size, for the numerical parts of the      *)
(* specification (TLC's own integers stop at 2^31).                        *)
(*                                                                         *)
(* A number is an Int or a string "12", "-5p-3" (= -5/8) or "1/3".  Every   *)
(* finite float is such a number exactly, so values recorded from the      *)
(* implementation enter the specification without rounding.  "nan", "inf"  *)
(* and "-inf" are not numbers: operators absorb them and comparisons with  *)
(* them are FALSE, so that no clause of the form |x - y| <= tol can hold   *)
(* for a non-finite result.                                                *)
(*                                                                         *)
(* The first group is implemented by java/BigRat.java (a TLC module        *)
(* override; the definitions here only give the signature).  The operators *)
(* on sequences are ordinary definitions, also overridden for speed;       *)
(* BigRatTest.tla compares the two on every run of setup.                  *)
(***************************************************************************)
EXTENDS Integers, Sequences

RAdd(a, b) == CHOOSE x \in STRING : TRUE     \* a + b
RSub(a, b) == CHOOSE x \in STRING : TRUE     \* a - b
RMul(a, b) == CHOOSE x \in STRING : TRUE     \* a * b
RDiv(a, b) == CHOOSE x \in STRING : TRUE     \* a / b
RNeg(a)    == CHOOSE x \in STRING : TRUE     \* -a
RAbs(a)    == CHOOSE x \in STRING : TRUE     \* |a|
RRound(a, bits) == CHOOSE x \in STRING : TRUE \* a, to that many significant bits
RSqrt(a, bits)  == CHOOSE x \in STRING : TRUE \* square root, to that many bits
RStr(a)    == a                              \* a, as a string (for ToJson)
RNum(a)    == CHOOSE x \in BOOLEAN : TRUE    \* a is a (finite) number
RLt(a, b)  == CHOOSE x \in BOOLEAN : TRUE
RLe(a, b)  == CHOOSE x \in BOOLEAN : TRUE
REq(a, b)  == CHOOSE x \in BOOLEAN : TRUE
RSame(a, b) == a = b                         \* also for "inf" and the like

(* v itself; the override leaves nothing in it unevaluated (for speed)      *)
Force(v) == v

RECURSIVE VSumDef(_)
VSumDef(a) == IF a = <<>> THEN "0" ELSE RAdd(a[1], VSumDef(Tail(a)))
VDotDef(a, b) == VSumDef([i \in 1..Len(a) |-> RMul(a[i], b[i])])
VAddDef(a, b) == [i \in 1..Len(a) |-> RAdd(a[i], b[i])]
VSubDef(a, b) == [i \in 1..Len(a) |-> RSub(a[i], b[i])]
VMulDef(a, b) == [i \in 1..Len(a) |-> RMul(a[i], b[i])]
VScaleDef(c, b) == [i \in 1..Len(b) |-> RMul(c, b[i])]
RECURSIVE VMaxAbsDef(_)
VMaxAbsDef(a) == IF a = <<>> THEN "0"
                 ELSE LET m == VMaxAbsDef(Tail(a))
                      IN  IF RLt(m, RAbs(a[1])) THEN RAbs(a[1]) ELSE m

VSum(a)      == VSumDef(a)
VDot(a, b)   == VDotDef(a, b)
VAdd(a, b)   == VAddDef(a, b)
VSub(a, b)   == VSubDef(a, b)
VMul(a, b)   == VMulDef(a, b)      \* entrywise
VScale(c, b) == VScaleDef(c, b)
VMaxAbs(a)   == VMaxAbsDef(a)
VRound(a, bits) == [i \in 1..Len(a) |-> RRound(a[i], bits)]

MatVec(m, x) == [i \in 1..Len(m) |-> VDot(m[i], x)]

(* |a - b| <= tol *)
RNear(a, b, tol) == RLe(RAbs(RSub(a, b)), tol)
(* the same for sequences, which must have equal lengths *)
VNear(a, b, tol) == /\ Len(a) = Len(b)
                    /\ RLe(VMaxAbs(VSub(a, b)), tol)
RMax(a, b) == IF RLt(a, b) THEN b ELSE a
RMin(a, b) == IF RLt(a, b) THEN a ELSE b
RECURSIVE RPow(_, _)
RPow(a, n) == IF n = 0 THEN "1" ELSE RMul(a, RPow(a, n - 1))
=============================================================================
