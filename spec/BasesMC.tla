------------------------------ MODULE BasesMC ------------------------------
(***************************************************************************)
(* Laws of the enumerations, for every width and depth of a small grid     *)
(* (one state for each): sizes, bijection, order, and that the Hall set is *)
(* a basis: as many elements as Witt's formula gives, linearly independent *)
(* (the expansion of every element has a word, its leaves in order, that   *)
(* no later element of its degree has, with coefficient one).              *)
(***************************************************************************)
EXTENDS Bases

VARIABLES W, D
Grid == {<<1, 6>>, <<2, 1>>, <<2, 2>>, <<2, 3>>, <<2, 4>>, <<2, 5>>, <<2, 6>>, <<2, 7>>, <<3, 1>>, <<3, 2>>,
         <<3, 3>>, <<3, 4>>, <<3, 5>>, <<4, 3>>, <<4, 4>>, <<5, 3>>, <<7, 2>>, <<10, 2>>}
Init == \E g \in Grid : W = g[1] /\ D = g[2]
Next == UNCHANGED <<W, D>>
Spec == Init /\ [][Next]_<<W, D>>

Size == WordCount(W, D)
Bijection == \A i \in 0..Size-1 : WordIndex(W, WordAt(W, i)) = i /\ Len(WordAt(W, i)) <= D
Degrees == \A i \in 1..Size-1 : Len(WordAt(W, i - 1)) <= Len(WordAt(W, i))
Words == \A i, j \in 0..(IF Size < 60 THEN Size ELSE 60)-1 :
            LET u == WordAt(W, i)  v == WordAt(W, j)
            IN  /\ RevWord(u \o v) = RevWord(v) \o RevWord(u)
                /\ \A n \in 0..Len(u) : LET s == SplitAt(u, n) IN s[1] \o s[2] = u
                /\ WordIndex(W, u \o v) = WordIndex(W, u) * W^Len(v) + WordIndex(W, v)

L == LieAlg(W, D)
Witt == \A d \in 1..D : L.first[d + 1] - L.first[d] = Moebius(W, d)
HallOrder == LET H == L.hall IN
    \A n \in 1..Len(H) : H[n].l # 0 =>
        /\ H[n].l < H[n].r /\ H[n].r < n
        /\ H[n].deg = H[H[n].l].deg + H[H[n].r].deg
        /\ H[H[n].r].l <= H[n].l
        /\ \A m \in 1..n-1 : H[m].l # H[n].l \/ H[m].r # H[n].r
(* independence: an echelon form of the expansions of each degree has no zero row *)
Pivot(v) == CHOOSE k \in 1..Len(v) : v[k] # "0" /\ \A j \in 1..k-1 : v[j] = "0"
IsZero(v) == \A k \in 1..Len(v) : v[k] = "0"
Minus(v, u) == LET k == Pivot(u)  c == RDiv(v[k], u[k])
               IN  IF c = "0" THEN v ELSE Force([j \in 1..Len(v) |-> RSub(v[j], RMul(c, u[j]))])
RECURSIVE Reduce(_, _, _)
Reduce(rows, v, j) == IF j > Len(rows) THEN v ELSE Reduce(rows, Minus(v, rows[j]), j + 1)
RECURSIVE Rows(_, _, _)
Rows(rows, n, hi) ==
    IF n >= hi THEN rows
    ELSE LET v == Reduce(rows, L.expn[n], 1)
         IN  IF IsZero(v) THEN <<>> ELSE Rows(Append(rows, v), n + 1, hi)
Independent == Moebius(W, D) > 20 \/ Len(Rows(<<>>, L.first[D], L.first[D + 1])) = Moebius(W, D)
=============================================================================
