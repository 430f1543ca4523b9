------------------------------- MODULE Bases -------------------------------
(***************************************************************************)
(* The bases of the tensor algebra and of the free Lie algebra of width W  *)
(* and depth D, as enumerations.                                           *)
(*                                                                         *)
(* A tensor basis lists the words of at most D letters, shorter words      *)
(* first and words of one length in dictionary order; the number of a word *)
(* is the number of words before it.  A Lie basis lists the Hall set of    *)
(* module Hall; the number of an element is the number of those before it. *)
(***************************************************************************)
EXTENDS Hall

(* number of words of at most d letters; number of Hall elements of degree <= d *)
RECURSIVE WordCount(_, _)
WordCount(W, d) == IF d = 0 THEN 1 ELSE W^d + WordCount(W, d - 1)
RECURSIVE LieCount(_, _)
LieCount(W, d) == IF d = 0 THEN 0 ELSE Moebius(W, d) + LieCount(W, d - 1)

(* words are sequences of letters 1..W *)
RECURSIVE Rank(_, _)
Rank(W, w) == IF w = <<>> THEN 0
              ELSE (w[1] - 1) * W^(Len(w) - 1) + Rank(W, Tail(w))
WordIndex(W, w) == (IF w = <<>> THEN 0 ELSE WordCount(W, Len(w) - 1)) + Rank(W, w)
WordAt(W, i) ==
    LET n == CHOOSE k \in 0..i : WordCount(W, k) > i /\ (k = 0 \/ WordCount(W, k - 1) <= i)
        r == IF n = 0 THEN 0 ELSE i - WordCount(W, n - 1)
    IN  Force([j \in 1..n |-> 1 + ((r \div W^(n - j)) % W)])
RevWord(w) == Force([j \in 1..Len(w) |-> w[Len(w) + 1 - j]])
(* the last n letters are split off *)
SplitAt(w, n) == LET m == IF n <= 0 THEN Len(w) ELSE IF n >= Len(w) THEN 0 ELSE Len(w) - n
                 IN  <<SubSeq(w, 1, m), SubSeq(w, m + 1, Len(w))>>
RECURSIVE Letters(_, _)
Letters(w, j) == IF j > Len(w) THEN ""
                 ELSE (IF j > 1 THEN "," ELSE "") \o ToString(w[j]) \o Letters(w, j + 1)
WordStr(w) == "(" \o Letters(w, 1) \o ")"

(* an element of a Hall basis H, written with brackets *)
RECURSIVE HallStr(_, _)
HallStr(H, n) == IF H[n].l = 0 THEN ToString(H[n].r)
                 ELSE "[" \o HallStr(H, H[n].l) \o "," \o HallStr(H, H[n].r) \o "]"
(* the leaves of an element, from the left *)
RECURSIVE Leaves(_, _)
Leaves(H, n) == IF H[n].l = 0 THEN <<H[n].r>> ELSE Leaves(H, H[n].l) \o Leaves(H, H[n].r)

(* a bracket given as nested pairs: a letter is <<k>>, a pair is <<x, y>> *)
RECURSIVE TreeStr(_)
TreeStr(t) == IF Len(t) = 1 THEN ToString(t[1])
              ELSE "[" \o TreeStr(t[1]) \o "," \o TreeStr(t[2]) \o "]"
=============================================================================
