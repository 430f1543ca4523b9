-------------------------------- MODULE Rat --------------------------------
(***************************************************************************)
(* Exact rational numbers of unbounded size, written as strings "n" or     *)
(* "n/d" in lowest terms with d > 1.  TLC's own integers have 32 bits, too *)
(* few for the coefficients of signatures and for the end points of real   *)
(* intervals (IEEE doubles, which are dyadic rationals).                   *)
(*                                                                         *)
(* The operators are evaluated by Rat.java (java.math.BigInteger), in the  *)
(* way TLC evaluates the operators of the standard module Integers.  The   *)
(* definitions below only fix names and arities; RatTest.tla checks the    *)
(* Java evaluation against the laws of an ordered field and against TLC's  *)
(* integers.                                                               *)
(***************************************************************************)
EXTENDS Integers, Sequences

Rat == STRING

RInt(i)      == CHOOSE r \in STRING : TRUE     \* the integer i
RToInt(a)    == CHOOSE i \in Int : TRUE        \* for integral a of 32 bits
RFrac(n, d)  == CHOOSE r \in STRING : TRUE     \* n / d
RAdd(a, b)   == CHOOSE r \in STRING : TRUE
RSub(a, b)   == CHOOSE r \in STRING : TRUE
RMul(a, b)   == CHOOSE r \in STRING : TRUE
RDiv(a, b)   == CHOOSE r \in STRING : TRUE     \* b # 0
RNeg(a)      == CHOOSE r \in STRING : TRUE
RLt(a, b)    == CHOOSE r \in BOOLEAN : TRUE
RLe(a, b)    == CHOOSE r \in BOOLEAN : TRUE
RFloor(a)    == CHOOSE r \in STRING : TRUE     \* largest integer <= a
RPow2(n)     == CHOOSE r \in STRING : TRUE     \* 2^n, n any integer
RSum(s)      == CHOOSE r \in STRING : TRUE     \* sum of a sequence
RDot(s, t)   == CHOOSE r \in STRING : TRUE     \* sum of s[i] * t[i]

(* The identity; it makes TLC evaluate the (nested) functions in x once,   *)
(* instead of at every application.                                        *)
Force(x)     == x

(* |a - b| <= 10^-digits * max(1, |a|, |b|): agreement of a rounded value *)
RClose(a, b, digits) == CHOOSE r \in BOOLEAN : TRUE

RMin(a, b) == IF RLe(a, b) THEN a ELSE b
RMax(a, b) == IF RLe(a, b) THEN b ELSE a
RCeil(a)   == RNeg(RFloor(RNeg(a)))
RAbs(a)    == RMax(a, RNeg(a))

(* floor and ceiling of a on the grid of multiples of 2^-n *)
RGridFloor(a, n) == RMul(RFloor(RMul(a, RPow2(n))), RPow2(-n))
RGridCeil(a, n)  == RMul(RCeil(RMul(a, RPow2(n))), RPow2(-n))
=============================================================================
