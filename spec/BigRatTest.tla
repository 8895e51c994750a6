------------------------------ MODULE BigRatTest ------------------------------
(* The Java overrides of BigRat.tla against plain integers and against the  *)
(* definitions they replace.                                                *)
EXTENDS BigRat, FiniteSets, TLC

Is == -7..7
Str(i) == ToString(i)
ASSUME \A a, b \in Is : /\ REq(RAdd(a, b), a + b) /\ REq(RSub(a, b), a - b)
                        /\ REq(RMul(a, b), a * b)
                        /\ REq(RAdd(Str(a), Str(b)), a + b)
                        /\ (RLt(a, b) <=> a < b) /\ (RLe(a, b) <=> a <= b)
                        /\ (REq(a, b) <=> a = b)
                        /\ (REq(Str(a), b) <=> a = b)
                        /\ (b # 0 => REq(RMul(RDiv(a, b), b), a))
                        /\ REq(RNeg(a), -a) /\ REq(RAbs(a), IF a < 0 THEN -a ELSE a)
(* field laws on fractions *)
Qs == {"0", "1", "-1", "1/3", "-2/3", "5p-3", "-7p-1", "3p4", "22/7", "1p-40"}
ASSUME \A a, b, c \in Qs : /\ REq(RAdd(a, b), RAdd(b, a))
                           /\ REq(RAdd(a, RAdd(b, c)), RAdd(RAdd(a, b), c))
                           /\ REq(RMul(a, RAdd(b, c)), RAdd(RMul(a, b), RMul(a, c)))
                           /\ REq(RSub(a, b), RNeg(RSub(b, a)))
                           /\ (RLt(a, b) <=> RLt(RAdd(a, c), RAdd(b, c)))
                           /\ (RLe(a, b) <=> ~RLt(b, a))
                           /\ (~REq(b, "0") => REq(RMul(RDiv(a, b), b), a))
ASSUME REq("5p-3", "5/8") /\ REq("3p4", 48) /\ REq("-7p-1", "-7/2")
ASSUME \A x \in {"nan", "inf", "-inf"} :
         /\ ~RNum(x) /\ ~RLe(x, 1) /\ ~RLe(1, x) /\ ~RLt(x, 1) /\ ~REq(x, x)
         /\ ~RNum(RAdd(x, 1)) /\ ~RNum(RMul(0, x)) /\ ~RNum(RAbs(x))
         /\ ~RLe(VMaxAbs(<<1, x, 2>>), 1000) /\ ~RNum(VDot(<<1, x>>, <<0, 0>>))
ASSUME \A a \in Qs : RNum(a)
(* square roots: to the stated number of bits *)
ASSUME \A a \in {"2", "3", "1/3", "9", "1p-40", "22/7"} :
         LET s == RSqrt(a, 60) IN RLe(RAbs(RSub(RMul(s, s), a)), RMul(a, "1p-58"))
ASSUME \A a \in Qs : RLe(RAbs(RSub(RRound(a, 30), a)), RMul(RAbs(a), "1p-29"))
Vs == {<<>>, <<"1/3", "2", "-5p-3">>, <<"1", "-2", "3">>, <<"22/7", "0", "-1/3">>}
ASSUME \A a \in Vs : REq(VSum(a), VSumDef(a)) /\ REq(VMaxAbs(a), VMaxAbsDef(a))
ASSUME \A a, b \in Vs : Len(a) = Len(b) =>
   /\ REq(VDot(a, b), VDotDef(a, b))
   /\ \A i \in DOMAIN a : /\ REq(VAdd(a, b)[i], VAddDef(a, b)[i])
                          /\ REq(VSub(a, b)[i], VSubDef(a, b)[i])
                          /\ REq(VMul(a, b)[i], VMulDef(a, b)[i])
                          /\ REq(VScale("2/3", b)[i], VScaleDef("2/3", b)[i])
VARIABLE x
Spec == x = 0 /\ [][UNCHANGED x]_x
=============================================================================
