-------------------------------- MODULE Poly --------------------------------
(***************************************************************************)
(* Polynomials with rational coefficients in commuting indeterminates.     *)
(* A monomial is a function from the indeterminates in it to their powers, *)
(* which are positive; a polynomial is a function from its monomials to    *)
(* their coefficients, which are not zero.  So equal polynomials are equal *)
(* functions.                                                              *)
(* In traces a monomial is a sequence of <<letter, power>> and a polynomial*)
(* a sequence of <<monomial, coefficient>>, in any order.                  *)
(***************************************************************************)
EXTENDS Rat, FiniteSets, Sequences

Elems(s) == {s[k] : k \in 1..Len(s)}
MUnit == [l \in {} |-> 0]
Pow(m, l) == IF l \in DOMAIN m THEN m[l] ELSE 0
MMul(a, b) == Force([l \in DOMAIN a \cup DOMAIN b |-> Pow(a, l) + Pow(b, l)])
MPow(a, n) == IF n = 0 THEN MUnit ELSE Force([l \in DOMAIN a |-> a[l] * n])
MSet(a, l, n) == Force([k \in {j \in DOMAIN a \cup {l} : (IF j = l THEN n ELSE Pow(a, j)) > 0} |->
                           IF k = l THEN n ELSE a[k]])
RECURSIVE SumOver(_, _)
SumOver(f, S) == IF S = {} THEN 0 ELSE LET x == CHOOSE y \in S : TRUE IN f[x] + SumOver(f, S \ {x})
MDeg(m) == SumOver(m, DOMAIN m)

PZero == [m \in {} |-> "0"]
Coef(p, m) == IF m \in DOMAIN p THEN p[m] ELSE "0"
PNorm(p) == Force([m \in {n \in DOMAIN p : p[n] # "0"} |-> p[m]])
PTerm(m, c) == IF c = "0" THEN PZero ELSE Force([n \in {m} |-> c])
PConst(c) == PTerm(MUnit, c)
PAdd(p, q) == PNorm([m \in DOMAIN p \cup DOMAIN q |-> RAdd(Coef(p, m), Coef(q, m))])
PSmul(p, c) == PNorm([m \in DOMAIN p |-> RMul(c, p[m])])
PNeg(p) == PSmul(p, "-1")
PSub(p, q) == PAdd(p, PNeg(q))
PShift(p, m, c) == \* p times the term c m
    LET D == {MMul(n, m) : n \in DOMAIN p}
    IN  [k \in D |-> RMul(c, p[CHOOSE n \in DOMAIN p : MMul(n, m) = k])]
RECURSIVE PMulOver(_, _, _)
PMulOver(p, q, S) ==
    IF S = {} THEN PZero
    ELSE LET m == CHOOSE y \in S : TRUE IN PAdd(PShift(p, m, q[m]), PMulOver(p, q, S \ {m}))
PMul(p, q) == PMulOver(p, q, DOMAIN q)
RECURSIVE PPow(_, _)
PPow(p, n) == IF n = 0 THEN PConst("1") ELSE PMul(p, PPow(p, n - 1))
PSet(p, m, c) == PNorm([n \in DOMAIN p \cup {m} |-> IF n = m THEN c ELSE p[n]])
PDeg(p) == LET D == {MDeg(m) : m \in DOMAIN p} IN IF D = {} THEN 0 ELSE CHOOSE d \in D : \A e \in D : e <= d

(* the value at a point: pt gives a rational number for each indeterminate *)
RECURSIVE RPower(_, _)
RPower(x, n) == IF n = 0 THEN "1" ELSE RMul(x, RPower(x, n - 1))
RECURSIVE MEvalOver(_, _, _)
MEvalOver(m, pt, S) ==
    IF S = {} THEN "1" ELSE LET l == CHOOSE y \in S : TRUE IN RMul(RPower(pt[l], m[l]), MEvalOver(m, pt, S \ {l}))
MEval(m, pt) == MEvalOver(m, pt, DOMAIN m)
RECURSIVE PEvalOver(_, _, _)
PEvalOver(p, pt, S) ==
    IF S = {} THEN "0"
    ELSE LET m == CHOOSE y \in S : TRUE IN RAdd(RMul(p[m], MEval(m, pt)), PEvalOver(p, pt, S \ {m}))
PEval(p, pt) == PEvalOver(p, pt, DOMAIN p)

(* traces *)
MCanon(s) == /\ \A j, k \in 1..Len(s) : j # k => s[j][1] # s[k][1]
             /\ \A k \in 1..Len(s) : s[k][2] > 0
MonOf(s) == Force([l \in {s[k][1] : k \in 1..Len(s)} |-> s[CHOOSE k \in 1..Len(s) : s[k][1] = l][2]])
PCanon(s) == /\ \A k \in 1..Len(s) : MCanon(s[k][1]) /\ s[k][2] # "0"
             /\ \A j, k \in 1..Len(s) : j # k => Elems(s[j][1]) # Elems(s[k][1])
RECURSIVE PolyOver(_, _)
PolyOver(s, k) == IF k > Len(s) THEN PZero
                  ELSE PAdd(PTerm(MonOf(s[k][1]), s[k][2]), PolyOver(s, k + 1))
PolyOf(s) == PolyOver(s, 1)
(* value of an encoded polynomial at a point *)
RECURSIVE MonVal(_, _, _)
MonVal(s, pt, k) == IF k > Len(s) THEN "1" ELSE RMul(RPower(pt[s[k][1]], s[k][2]), MonVal(s, pt, k + 1))
ValueAt(s, pt) == RSum([k \in 1..Len(s) |-> RMul(s[k][2], MonVal(s[k][1], pt, 1))])
=============================================================================
