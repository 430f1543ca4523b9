------------------------------ MODULE PolyLaws ------------------------------
(***************************************************************************)
(* Laws of module Poly over all triples of a small set of polynomials: a   *)
(* commutative ring, degrees, powers, and evaluation as a homomorphism.    *)
(***************************************************************************)
EXTENDS Poly

X == [l \in {"x1"} |-> 1]
Y == [l \in {"y1"} |-> 1]
XX == MPow(X, 2)
XY == MMul(X, Y)
Coefs == {"0", "1", "-2", "1/2"}
Small == {PAdd(PAdd(PTerm(MUnit, a), PTerm(X, b)), PTerm(m, c)) : a \in {"0", "-2"}, b \in Coefs, c \in {"0", "1", "-1/2"}, m \in {XY, XX}}
Pt == [x1 |-> "3", y1 |-> "-5/7"]

VARIABLES p, q, r
Init == p \in Small /\ q \in Small /\ r \in {PZero, PConst("1"), PTerm(Y, "-1"), PAdd(PTerm(X, "1/2"), PTerm(XY, "3"))}
Next == UNCHANGED <<p, q, r>>
Spec == Init /\ [][Next]_<<p, q, r>>

Canonical(a) == \A m \in DOMAIN a : a[m] # "0" /\ \A l \in DOMAIN m : m[l] > 0
Ring == LET pq == PMul(p, q) IN
    /\ PAdd(p, q) = PAdd(q, p) /\ pq = PMul(q, p)
    /\ PMul(pq, r) = PMul(p, PMul(q, r))
    /\ PMul(PAdd(p, q), r) = PAdd(PMul(p, r), PMul(q, r))
    /\ PSub(p, p) = PZero /\ PMul(p, PConst("1")) = p /\ PMul(p, PZero) = PZero
    /\ PMul(p, PTerm(X, "1/2")) = PShift(p, X, "1/2")
Canon == \A a \in {PAdd(p, q), PMul(p, q), PSub(p, q), PSmul(p, "0"), PPow(p, 2)} : Canonical(a)
Degree == /\ (p # PZero /\ q # PZero => PDeg(PMul(p, q)) = PDeg(p) + PDeg(q))
          /\ PPow(p, 3) = PMul(p, PMul(p, p))
Evaluation == /\ PEval(PMul(p, q), Pt) = RMul(PEval(p, Pt), PEval(q, Pt))
              /\ PEval(PAdd(p, q), Pt) = RAdd(PEval(p, Pt), PEval(q, Pt))
=============================================================================
