----------------------------- MODULE BasesTrace -----------------------------
(***************************************************************************)
(* Answers of the real bases, keys and iterators against module Bases.     *)
(* A program is a basis (p.w, p.d) and a sequence of questions; there is   *)
(* no state beside the position.                                           *)
(***************************************************************************)
EXTENDS Bases, Json, IOUtils

Progs == Force(ndJsonDeserialize(IOEnv.TRACE))
Ctxs == Force({<<Progs[p].w, Progs[p].d>> : p \in {q \in 1..Len(Progs) : Progs[q].lie}})
ASSUME TLCSet(1, [c \in Ctxs |-> HallBasis(c[1], c[2])])
HallTab(c) == TLCGet(1)[c]

VARIABLES prog, i, bad
vars == <<prog, i, bad>>

Seq0(a, b) == [k \in 1..(IF b < a THEN 0 ELSE b - a + 1) |-> a + k - 1]
Expected(W, D, e) ==
    CASE e.op = "dim"    -> WordCount(W, D)
      [] e.op = "size"   -> WordCount(W, e.n)
      [] e.op = "ldim"   -> LieCount(W, D)
      [] e.op = "lsize"  -> LieCount(W, e.n)
      [] e.op = "word"   -> WordAt(W, e.n)
      [] e.op = "degree" -> Len(e.x)
      [] e.op = "index"  -> WordIndex(W, e.x)
      [] e.op = "str"    -> WordStr(e.x)
      [] e.op = "mul"    -> e.x \o e.y
      [] e.op = "rev"    -> RevWord(e.x)
      [] e.op = "split"  -> SplitAt(e.x, e.n)
      [] e.op = "parents" -> <<<<e.x[1]>>, Tail(e.x)>>
      [] e.op = "eq"     -> e.x = e.y
      [] e.op = "iter"   -> [k \in 1..(IF e.n2 > e.n THEN e.n2 - e.n ELSE 0) |-> WordAt(W, e.n + k - 1)]
      [] e.op = "lkey"   -> HallStr(HallTab(<<W, D>>), e.n + 1)
      [] e.op = "lindex" -> e.n
      [] e.op = "lparents" -> LET H == HallTab(<<W, D>>)  h == H[e.n + 1]
                              IN  <<IF h.l = 0 THEN "None" ELSE HallStr(H, h.l),
                                    IF h.l = 0 THEN ToString(h.r) ELSE HallStr(H, h.r)>>
      [] e.op = "lstr"   -> TreeStr(e.x)
      [] e.op = "lnumber" -> \* the number of a bracket of the Hall set
                             CHOOSE k \in 0..Len(HallTab(<<W, D>>))-1 :
                                HallStr(HallTab(<<W, D>>), k + 1) = TreeStr(e.x)
      [] e.op = "liter"  -> [k \in 1..(IF e.n2 >= e.n THEN e.n2 - e.n + 1 ELSE 0) |->
                                HallStr(HallTab(<<W, D>>), e.n + k - 1)]

\* A finding that is listed as known: the product of keys runs from right to
\* left.  Any other answer is still a violation.
Findings == IOEnv.FINDINGS
KnownMul(e) == /\ e.op = "mul" /\ e.res = e.y \o e.x
               /\ \E k \in 1..Len(Findings) - 16 : SubSeq(Findings, k, k + 16) = "key-product-order"
               /\ PrintT("KNOWN key-product-order")

Init == prog \in 1..Len(Progs) /\ i = 1 /\ bad = ""
Next == /\ bad = "" /\ i <= Len(Progs[prog].ev)
        /\ i' = i + 1 /\ prog' = prog
        /\ LET p == Progs[prog]  e == p.ev[i]
           IN  bad' = IF e.op \in {"CRASH", "EXC"} THEN e.op \o ": " \o e.what
                      ELSE LET x == Force(Expected(p.w, p.d, e))
                           IN  IF x = e.res \/ KnownMul(e) THEN ""
                               ELSE "specified " \o ToString(x) \o ", observed " \o ToString(e.res)
Spec == Init /\ [][Next]_vars
Conforms == bad = ""
=============================================================================
