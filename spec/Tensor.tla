------------------------------- MODULE Tensor -------------------------------
(***************************************************************************)
(* (Force is the identity, see Rat.)                                       *)
(*                                                                         *)
(* The truncated tensor algebra over words in W letters, up to degree D.   *)
(*                                                                         *)
(* A tensor is the sequence of its levels: t[d+1] is the sequence of the   *)
(* coefficients of the W^d words of degree d, in lexicographic order; the  *)
(* word of degree d with number k in 0..W^d-1 has the base-W digits of k,  *)
(* so that the concatenation of the words (d1,k1) and (d2,k2) is           *)
(* (d1+d2, k1*W^d2 + k2).  Coefficients are exact rationals (module Rat).  *)
(***************************************************************************)
EXTENDS Rat, TLC

TWidth(t) == Len(t[2])
TDepth(t) == Len(t) - 1

TZero(W, D) == Force([d \in 1..D+1 |-> [k \in 1..W^(d-1) |-> "0"]])
TScalar(W, D, c) == Force([d \in 1..D+1 |-> [k \in 1..W^(d-1) |-> IF d = 1 THEN c ELSE "0"]])
TOne(W, D) == TScalar(W, D, "1")
TLetter(W, D, i) == Force([d \in 1..D+1 |-> [k \in 1..W^(d-1) |->
                        IF d = 2 /\ k = i THEN "1" ELSE "0"]])

TMap2(Op(_,_), a, b) == Force([d \in 1..Len(a) |-> [k \in 1..Len(a[d]) |-> Op(a[d][k], b[d][k])]])
TAdd(a, b) == TMap2(RAdd, a, b)
TSub(a, b) == TMap2(RSub, a, b)
TNeg(a) == Force([d \in 1..Len(a) |-> [k \in 1..Len(a[d]) |-> RNeg(a[d][k])]])
TSmul(a, c) == Force([d \in 1..Len(a) |-> [k \in 1..Len(a[d]) |-> RMul(a[d][k], c)]])

(* The free (concatenation) product. *)
TMul(x, y) ==
    LET a == Force(x)
        b == Force(y)
        W == Len(a[2])
    IN  Force([d1 \in 1..Len(a) |-> [k1 \in 1..W^(d1-1) |->
            LET d == d1 - 1
                k == k1 - 1
            IN  RDot([j \in 1..d1 |-> a[j][1 + k \div W^(d1-j)]],
                     [j \in 1..d1 |-> b[d1-j+1][1 + (k % W^(d1-j))]])]])

TBracket(a, b) == TSub(TMul(a, b), TMul(b, a))

TTruncate(a, D) == [d \in 1..D+1 |-> a[d]]
(* the same element in a context of another depth *)
TToDepth(a, D) == Force([d \in 1..D+1 |-> IF d <= Len(a) THEN a[d] ELSE [k \in 1..Len(a[2])^(d-1) |-> "0"]])

TWithConst(a, c) == Force([d \in 1..Len(a) |-> IF d = 1 THEN <<c>> ELSE a[d]])

(* exp(x) for x without constant term, by Horner's rule *)
RECURSIVE ExpFrom(_, _, _)
ExpFrom(x, n, N) == IF n > N THEN TOne(TWidth(x), TDepth(x))
                    ELSE TAdd(TOne(TWidth(x), TDepth(x)),
                              TSmul(TMul(x, ExpFrom(x, n + 1, N)), RFrac(1, n)))
TExp(x) == ExpFrom(x, 1, TDepth(x))

(* log(1 + y) for y the part of a without constant term *)
RECURSIVE LogFrom(_, _, _)
LogFrom(y, n, N) ==      \* sum over m in n..N of (-1)^(m+1) y^(m-n+1) / m
    IF n > N THEN TZero(TWidth(y), TDepth(y))
    ELSE LET c == RFrac(IF n % 2 = 1 THEN 1 ELSE -1, n)
         IN  TMul(y, TAdd(TScalar(TWidth(y), TDepth(y), c), LogFrom(y, n + 1, N)))
TLog(a) == LogFrom(TWithConst(a, "0"), 1, TDepth(a))

(* Product of the exponentials of a sequence of tensors, and its logarithm *)
RECURSIVE TExpProd(_, _, _)
TExpProd(W, D, xs) == IF xs = <<>> THEN TOne(W, D)
                      ELSE TMul(TExpProd(W, D, SubSeq(xs, 1, Len(xs) - 1)), TExp(xs[Len(xs)]))
TCbh(W, D, xs) == TLog(TExpProd(W, D, xs))

(* Words as sequences of letters 0..W-1. *)
Digits(W, d, k) == [i \in 1..d |-> (k \div W^(d-i)) % W]
RECURSIVE Number(_, _)
Number(W, w) == IF w = <<>> THEN 0 ELSE Number(W, SubSeq(w, 1, Len(w)-1)) * W + w[Len(w)]

(* The antipode reverses words with the sign of their degree. *)
RECURSIVE RevNum(_, _, _)
RevNum(W, d, k) == IF d = 0 THEN 0 ELSE (k % W) * W^(d-1) + RevNum(W, d - 1, k \div W)
TAntipode(a) ==
    LET W == Len(a[2])
    IN  Force([d1 \in 1..Len(a) |-> [k1 \in 1..W^(d1-1) |->
            LET c == a[d1][1 + RevNum(W, d1 - 1, k1 - 1)]
            IN  IF d1 % 2 = 1 THEN c ELSE RNeg(c)]])

(* Shuffle product: the coefficient of a word in the product of a and b is *)
(* the sum over the ways of splitting its letters into two subwords.  A    *)
(* subset of the letters is a number m in 0..2^d-1; SubNum is the number   *)
(* of the subword of the letters where m has digit bit.                    *)
RECURSIVE SubNum(_, _, _, _, _)
SubNum(W, d, k, m, bit) ==
    IF d = 0 THEN 0
    ELSE LET rest == SubNum(W, d - 1, k \div W, m \div 2, bit)
         IN  IF m % 2 = bit THEN rest * W + (k % W) ELSE rest
RECURSIVE Ones(_)
Ones(m) == IF m = 0 THEN 0 ELSE (m % 2) + Ones(m \div 2)
TShuffle(a, b) ==
    LET W == Len(a[2])
    IN  Force([d1 \in 1..Len(a) |-> [k1 \in 1..W^(d1-1) |->
            LET d == d1 - 1
                n == 2^d
            IN  RDot([m \in 1..n |-> a[1 + Ones(m-1)][1 + SubNum(W, d, k1 - 1, m - 1, 1)]],
                     [m \in 1..n |-> b[1 + d - Ones(m-1)][1 + SubNum(W, d, k1 - 1, m - 1, 0)]])]])
(* Left half shuffle: the first letter must come from the left factor. *)
THalfShuffle(a, b) ==
    LET W == Len(a[2])
    IN  Force([d1 \in 1..Len(a) |-> [k1 \in 1..W^(d1-1) |->
            LET d == d1 - 1
                n == 2^(d-1)           \* first letter: highest digit of m
            IN  IF d = 0 THEN "0"
                ELSE RDot([m \in 1..n |-> a[1 + Ones(n + m - 1)][1 + SubNum(W, d, k1 - 1, n + m - 1, 1)]],
                          [m \in 1..n |-> b[1 + d - Ones(n + m - 1)][1 + SubNum(W, d, k1 - 1, n + m - 1, 0)]])]])

(* Adjoint of left multiplication by p: <p x, s> = <x, TAdjoint(p, s)>. *)
TAdjoint(p, s) ==
    LET W == Len(s[2])
        D == TDepth(s)
    IN  Force([d1 \in 1..D+1 |-> [k1 \in 1..W^(d1-1) |->
            RSum([e \in 1..D+2-d1 |->
                RDot(p[e], [q \in 1..W^(e-1) |-> s[d1+e-1][1 + (q-1) * W^(d1-1) + (k1-1)]])])]])

TPair(a, b) == RSum([d \in 1..Len(a) |-> RDot(a[d], b[d])])

TIsZero(a) == \A d \in 1..Len(a) : \A k \in 1..Len(a[d]) : a[d][k] = "0"
TClose(a, b, digits) == \A d \in 1..Len(a) : \A k \in 1..Len(a[d]) : RClose(a[d][k], b[d][k], digits)
(* the highest degree with a non-zero coefficient *)
TDegree(a) == IF TIsZero(a) THEN 0
              ELSE CHOOSE d \in 0..TDepth(a) : /\ \E k \in 1..Len(a[d+1]) : a[d+1][k] # "0"
                                               /\ \A e \in d+2..Len(a) : \A k \in 1..Len(a[e]) : a[e][k] = "0"
TNonZero(a) == RToInt(RSum([d \in 1..Len(a) |-> RSum([k \in 1..Len(a[d]) |-> IF a[d][k] = "0" THEN "0" ELSE "1"])]))

(* a is group-like (a character of the shuffle algebra): the pairing with  *)
(* the shuffle product of two words is the product of the pairings.        *)
TIsGroupLike(a) ==
    LET W == TWidth(a)
        D == TDepth(a)
        Unit(d, k) == [e \in 1..D+1 |-> [j \in 1..W^(e-1) |-> IF e = d + 1 /\ j = k THEN "1" ELSE "0"]]
    IN  /\ a[1][1] = "1"
        /\ \A d \in 1..D : \A e \in 1..(D - d) : \A k \in 1..W^d : \A l \in 1..W^e :
              TPair(a, TShuffle(Unit(d, k), Unit(e, l))) = RMul(a[d+1][k], a[e+1][l])
=============================================================================
