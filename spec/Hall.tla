-------------------------------- MODULE Hall --------------------------------
(***************************************************************************)
(* The free Lie algebra on W letters up to degree D, in a Hall basis.      *)
(*                                                                         *)
(* The basis is the sequence of its elements in increasing order; element  *)
(* i is [l |-> left parent, r |-> right parent, deg |-> degree] where a    *)
(* letter has l = 0 and r = the letter.  A pair (i, j), i < j, is in the   *)
(* basis iff j is a letter or the left parent of j is not larger than i.   *)
(* Elements are ordered by degree, then by (left parent, right parent).    *)
(***************************************************************************)
EXTENDS Tensor, FiniteSets

(* the pairs of degree n over the basis H of the elements of degree < n, in order *)
HallPairs(H, n) ==
    LET Idx == 1..Len(H)
        \* candidates in lexicographic order of (i, j)
        Row(i) == SelectSeq([j \in Idx |-> <<i, j>>],
                    LAMBDA p : /\ p[1] < p[2]
                               /\ H[p[1]].deg + H[p[2]].deg = n
                               /\ H[p[2]].l <= p[1])
        RECURSIVE Rows(_)
        Rows(i) == IF i = 0 THEN <<>> ELSE Rows(i - 1) \o Row(i)
    IN  Force(Rows(Len(H)))

RECURSIVE HallBasis(_, _)
HallBasis(W, D) ==
    IF D = 1 THEN Force([i \in 1..W |-> [l |-> 0, r |-> i, deg |-> 1]])
    ELSE LET H == HallBasis(W, D - 1)
             P == HallPairs(H, D)
         IN  Force(H \o [m \in 1..Len(P) |-> [l |-> P[m][1], r |-> P[m][2], deg |-> D]])

(* Expansion of every basis element in the tensor algebra, as the level of *)
(* its degree (they are homogeneous).                                      *)
LevelBracket(W, p, a, q, b) ==
    Force([k1 \in 1..W^(p+q) |->
        LET k == k1 - 1
        IN  RSub(RMul(a[1 + k \div W^q], b[1 + (k % W^q)]),
                 RMul(b[1 + k \div W^p], a[1 + (k % W^p)]))])
RECURSIVE Expansions(_, _, _)
Expansions(W, H, n) ==
    IF n = 0 THEN <<>>
    ELSE LET E == Expansions(W, H, n - 1)
             h == H[n]
         IN  Append(E, IF h.l = 0 THEN Force([k \in 1..W |-> IF k = h.r THEN "1" ELSE "0"])
                       ELSE LevelBracket(W, H[h.l].deg, E[h.l], H[h.r].deg, E[h.r]))

(* Everything about the Lie algebra of width W and depth D.  Callers keep  *)
(* these records in constant tables.                                       *)
LieAlg(W, D) ==
    LET H == HallBasis(W, D)
    IN  Force([w |-> W, d |-> D, hall |-> H, expn |-> Expansions(W, H, Len(H)),
         first |-> [d \in 1..D+1 |-> 1 + Cardinality({i \in 1..Len(H) : H[i].deg < d})]])

(* The tensor of a Lie element given by its coordinates c in the basis. *)
LieToTensor(L, c) ==
    Force([d1 \in 1..L.d+1 |-> [k \in 1..L.w^(d1-1) |->
        IF d1 = 1 THEN "0"
        ELSE LET lo == L.first[d1-1]
                 n  == L.first[d1] - lo
             IN  RDot([i \in 1..n |-> c[lo+i-1]], [i \in 1..n |-> L.expn[lo+i-1][k]])]])

RECURSIVE Moebius(_, _)
(* the dimension of the free Lie algebra in degree n: (1/n) sum mu(d) W^(n/d) *)
Mu(n) ==
    LET Primes == {p \in 2..n : n % p = 0 /\ \A q \in 2..p-1 : p % q # 0}
    IN  IF \E p \in Primes : n % (p * p) = 0 THEN 0
        ELSE IF Cardinality(Primes) % 2 = 0 THEN 1 ELSE -1
Moebius(W, n) == LET Divs == {d \in 1..n : n % d = 0}
                     S[D \in SUBSET Divs] == IF D = {} THEN 0
                        ELSE LET x == CHOOSE y \in D : TRUE IN Mu(x) * W^(n \div x) + S[D \ {x}]
                 IN  S[Divs] \div n
=============================================================================
