------------------------------ MODULE IntervalMC -----------------------------
(***************************************************************************)
(* Laws of module Intervals over all cases of a small scope, and, with     *)
(* EMIT, those cases as programs for the real classes.                     *)
(* KIND of case:                                                           *)
(*   dissect   every interval with ends on the grid of mesh 1/8 in         *)
(*             [-LIM, LIM], every resolution from -2 to 4, both types      *)
(*   cell      every cell with |k| <= 9 and -2 <= n <= 3, both types       *)
(*   pair      every pair of intervals with ends among a few points        *)
(*   segment   every predicate on the 2^3 cells of an interval             *)
(***************************************************************************)
EXTENDS Intervals, Json, IOUtils

Kind == IOEnv.KIND
Emit == IOEnv.EMIT = "1"
Lim == atoi(IOEnv.LIM)

VARIABLES s, t
vars == <<s, t>>
At(j) == RFrac(j, 8)
Ivs == {Iv(RFrac(p[1], 4), RFrac(p[2], 4), o) : p \in {q \in {-3, -1, 0, 1, 2, 5} \X {-3, -1, 0, 1, 2, 5} : q[1] < q[2]}, o \in BOOLEAN}
None == [k |-> "0", n |-> 0, o |-> FALSE]
Init == /\ t = None
        /\ CASE Kind = "dissect" -> s \in {[lo |-> a, hi |-> b] : a \in -8*Lim..8*Lim, b \in -8*Lim..8*Lim}
             [] Kind = "cell" -> s \in {[k |-> RInt(k), n |-> n, o |-> o] : k \in -9..9, n \in -2..3, o \in BOOLEAN}
             [] Kind = "pair" -> s \in Ivs
             [] Kind = "segment" -> s \in SUBSET (1..8)
Next == /\ t = None /\ s' = s
        /\ CASE Kind = "dissect" -> s.lo < s.hi /\ t' \in {[k |-> "1", n |-> n, o |-> o] : n \in -2..4, o \in BOOLEAN}
             [] Kind = "cell" -> t' \in {[k |-> RInt(k), n |-> n, o |-> s.o] : k \in -3..3, n \in -1..3}
             [] Kind = "pair" -> t' \in Ivs
             [] Kind = "segment" -> t' \in {[k |-> "1", n |-> n, o |-> FALSE] : n \in 0..4}
Spec == Init /\ [][Next]_vars

Done == t # None
(* the mirror image of a dissection of the other type *)
Mirror(I) == Iv(RNeg(I.sup), RNeg(I.inf), ~I.o)
RECURSIVE Rev(_)
Rev(cs) == IF cs = <<>> THEN <<>> ELSE Append(Rev(Tail(cs)), [k |-> RNeg(cs[1].k), n |-> cs[1].n, o |-> ~cs[1].o])
Dissected(R, n) == IF R.o THEN Rev(Dissect(RNeg(R.sup), RNeg(R.inf), n)) ELSE Dissect(R.inf, R.sup, n)
Dissections == Kind = "dissect" /\ Done =>
    LET I == Iv(At(s.lo), At(s.hi), FALSE)
        R == Rounded(I, t.n, t.o)
        cs == Force(Dissected(R, t.n))
    IN  /\ IsDissection(cs, R)
        /\ \A j \in 1..Len(cs) : cs[j].n <= t.n
        \* it is the only one: every cell of the grid lies in one of its cells
        /\ RSum([j \in 1..Len(cs) |-> CellLen(cs[j])]) = RMax("0", RSub(R.sup, R.inf))
        /\ RLe(RAbs(RSub(R.inf, I.inf)), RPow2(-t.n))
        /\ (R.o => RLe(I.sup, R.sup)) /\ (~R.o => RLe(R.sup, I.sup))
Cells == Kind = "cell" /\ Done =>
    LET I == CellIv(s)
    IN  /\ RSub(I.sup, I.inf) = CellLen(s) /\ HasPoint(I, Incl(s)) /\ ~HasPoint(I, Excl(s))
        /\ CellInf(LeftHalf(s)) = I.inf /\ CellSup(LeftHalf(s)) = CellInf(RightHalf(s)) /\ CellSup(RightHalf(s)) = I.sup
        /\ CellAt(Incl(s), s.n, s.o) = s
        /\ {LeftHalf(s), RightHalf(s)} = {ToIncluded(s, 1), ToExcluded(s)}
        /\ CellInf(ShrinkLeft(s, 2)) = I.inf
        /\ LET y == [k |-> s.k, n |-> s.n] IN DValue(Rebased(y, t.n)) = DValue(y) /\ (t.n >= s.n => Rebased(y, t.n).n = t.n)
        \* two cells of one type are disjoint or nested
        /\ Meet(I, CellIv(t)) <=> CellContains(s, t) \/ CellContains(t, s)
        /\ (t.n >= s.n => (CellContains(s, t) <=> CellAt(Incl(t), s.n, s.o) = s))
        /\ ~(CellLess(s, t) /\ CellLess(t, s)) /\ (s # t /\ CellLen(s) # CellLen(t) => CellLess(s, t) \/ CellLess(t, s) \/ Incl(s) = Incl(t))
Pts == {RFrac(j, 8) : j \in -7..11}
Pairs == Kind = "pair" /\ Done =>
    LET SI == {x \in Pts : HasPoint(s, x)}
        ST == {x \in Pts : HasPoint(t, x)}
        P == [inf |-> s.inf, sup |-> s.sup, o |-> s.o, pts |-> SortR(SelectSeq(<<"0", "1/8">>, LAMBDA x : RLt(s.inf, x) /\ RLt(x, s.sup)))]
        Q == [inf |-> t.inf, sup |-> t.sup, o |-> s.o, pts |-> <<>>]
        M == Merge(P, Q)
    IN  /\ Meet(s, t) <=> SI \cap ST # {}
        /\ (s.o = t.o => (HasInterval(s, t) <=> ST \subseteq SI))
        /\ M = Merge(Q, P) /\ Merge(M, P) = M /\ Merge(P, P) = P
        /\ \A j \in 2..Len(Ends(M)) : RLt(Ends(M)[j-1], Ends(M)[j])
        /\ Range(Ends(M)) = Range(Ends(P)) \cup Range(Ends(Q))
        /\ RSum([j \in 1..Len(M.pts)+1 |-> RSub(Piece(M, j).sup, Piece(M, j).inf)]) = RSub(M.sup, M.inf)
        /\ Mesh(Midpoints(M)) = RDiv(Mesh(M), "2")
Bad(j) == <<RFrac(j - 1, 8), RFrac(j, 8)>>
QOf(S) == LET RECURSIVE F(_)
              F(X) == IF X = {} THEN <<>> ELSE LET j == CHOOSE y \in X : \A z \in X : y <= z IN <<Bad(j)>> \o F(X \ {j})
          IN  F(S)
Segmentation == Kind = "segment" /\ Done =>
    LET I == Iv("0", "1", FALSE)
        N == 2^t.n
        seg == Force(Segments(I, t.n, QOf(s)))
        Clear(a, b) == \A j \in s : ~(RLt(Bad(j)[1], b) /\ RLt(a, Bad(j)[2]))
        G(j) == RFrac(j, N)
        runs == {p \in (0..N) \X (0..N) : /\ p[1] < p[2] /\ Clear(G(p[1]), G(p[2]))
                                          /\ (p[1] = 0 \/ ~Clear(G(p[1] - 1), G(p[2])))
                                          /\ (p[2] = N \/ ~Clear(G(p[1]), G(p[2] + 1)))}
    IN  /\ {<<seg[j].inf, seg[j].sup>> : j \in 1..Len(seg)} = {<<G(p[1]), G(p[2])>> : p \in runs}
        /\ Len(seg) = Cardinality(runs)
        /\ \A j \in 2..Len(seg) : RLt(seg[j-1].sup, seg[j].inf)
Case == CASE Kind = "dissect" -> [kind |-> Kind, lo |-> s.lo, hi |-> s.hi, n |-> t.n, o |-> IF t.o THEN 1 ELSE 0]
          [] Kind = "cell" -> [kind |-> Kind, c |-> <<s.k, s.n, s.o>>, d |-> <<t.k, t.n, t.o>>]
          [] Kind = "pair" -> [kind |-> Kind, c |-> <<s.inf, s.sup, s.o>>, d |-> <<t.inf, t.sup, t.o>>]
          [] Kind = "segment" -> [kind |-> Kind, n |-> t.n, q |-> QOf(s)]
Emitted == Done /\ Emit => PrintT("HIST " \o ToJson(Case))
=============================================================================
