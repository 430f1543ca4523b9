------------------------------ MODULE RatTest ------------------------------
(* Checks the evaluation of Rat.tla: laws of an ordered field on a small    *)
(* grid of fractions, agreement with TLC's integers, floor, and numbers    *)
(* beyond 64 bits.                                                         *)
EXTENDS Rat, TLC
VARIABLE x
Init == x = 0
Next == UNCHANGED x
Spec == Init /\ [][Next]_x

N == -4..4
D == {1, 2, 3, 4}
F == {RFrac(n, d) : n \in N, d \in D}

IntLaws == \A a, b \in -50..50 :
    /\ RAdd(RInt(a), RInt(b)) = RInt(a + b)
    /\ RMul(RInt(a), RInt(b)) = RInt(a * b)
    /\ RSub(RInt(a), RInt(b)) = RInt(a - b)
    /\ RNeg(RInt(a)) = RInt(-a)
    /\ RLt(RInt(a), RInt(b)) = (a < b)
    /\ RLe(RInt(a), RInt(b)) = (a <= b)
    /\ RToInt(RInt(a)) = a
    /\ (b > 0 => RFloor(RFrac(a, b)) = RInt(a \div b))
FracLaws == \A a, c \in N, b, d \in D :
    /\ RAdd(RFrac(a, b), RFrac(c, d)) = RFrac(a * d + c * b, b * d)
    /\ RMul(RFrac(a, b), RFrac(c, d)) = RFrac(a * c, b * d)
    /\ (RFrac(a, b) = RFrac(c, d)) = (a * d = c * b)
    /\ RLt(RFrac(a, b), RFrac(c, d)) = (a * d < c * b)
    /\ (c # 0 => RMul(RDiv(RFrac(a, b), RFrac(c, d)), RFrac(c, d)) = RFrac(a, b))
FieldLaws == \A a, b, c \in F :
    /\ RMul(a, RAdd(b, c)) = RAdd(RMul(a, b), RMul(a, c))
    /\ RAdd(RAdd(a, b), c) = RAdd(a, RAdd(b, c))
    /\ RMul(RMul(a, b), c) = RMul(a, RMul(b, c))
    /\ RSum(<<a, b, c>>) = RAdd(a, RAdd(b, c))
    /\ RDot(<<a, b>>, <<b, c>>) = RAdd(RMul(a, b), RMul(b, c))
    /\ RLe(RFloor(a), a) /\ RLt(a, RAdd(RFloor(a), "1"))
    /\ RMin(a, b) \in {a, b} /\ RLe(RMin(a, b), a) /\ RLe(RMin(a, b), b)
Big == /\ RMul("100000000000000000000000000000001", "100000000000000000000000000000001")
            = "10000000000000000000000000000000200000000000000000000000000000001"
       /\ RMul(RPow2(100), RPow2(-100)) = "1"
       /\ RAdd(RPow2(-70), RPow2(-70)) = RPow2(-69)
       /\ RGridFloor("-5/8", 1) = "-1" /\ RGridCeil("-5/8", 1) = "-1/2"
       /\ RGridFloor("13/4", -1) = "2" /\ RGridCeil("13/4", -1) = "4"
       /\ RClose("1/3", "333333/1000000", 6) /\ ~RClose("1/3", "333333/1000000", 7)
ASSUME IntLaws
ASSUME FracLaws
ASSUME FieldLaws
ASSUME Big
=============================================================================
