------------------------------ MODULE Intervals ------------------------------
(***************************************************************************)
(* Dyadic numbers, half-open intervals, partitions and dissections.        *)
(*                                                                         *)
(* A dyadic number is [k, n]: k / 2^n, with k a rational string holding an *)
(* integer.  An interval is [inf, sup, o]: [inf, sup) when o is FALSE      *)
(* (clopen) and (inf, sup] when o is TRUE (opencl).  A dyadic interval is  *)
(* [k, n, o]: one cell of the grid of mesh 2^-n, identified by the         *)
(* multiple k of its included end.                                         *)
(***************************************************************************)
EXTENDS Rat, FiniteSets, TLC

DValue(y) == RMul(y.k, RPow2(-y.n))

(* rebase(res): the same number as a multiple of 2^-m, m as close to res   *)
(* as possible from above; tells whether m = res.                          *)
RIsInt(a) == RFloor(a) = a
Rebased(y, res) ==
    IF y.k = "0" THEN [k |-> "0", n |-> res]
    ELSE IF res >= y.n THEN [k |-> RMul(y.k, RPow2(res - y.n)), n |-> res]
    ELSE LET ms == {m \in res..y.n : RIsInt(RMul(y.k, RPow2(m - y.n)))}
             m == CHOOSE x \in ms : \A z \in ms : x <= z
         IN  [k |-> RMul(y.k, RPow2(m - y.n)), n |-> m]

(* Cells *)
CellLen(c) == RPow2(-c.n)
Incl(c) == DValue(c)
Excl(c) == IF c.o THEN RSub(DValue(c), CellLen(c)) ELSE RAdd(DValue(c), CellLen(c))
CellInf(c) == IF c.o THEN Excl(c) ELSE Incl(c)
CellSup(c) == IF c.o THEN Incl(c) ELSE Excl(c)
Iv(inf, sup, o) == [inf |-> inf, sup |-> sup, o |-> o]
CellIv(c) == Iv(CellInf(c), CellSup(c), c.o)
(* the cell of mesh 2^-n that contains the point x *)
CellAt(x, n, o) ==
    [k |-> IF o THEN RCeil(RMul(x, RPow2(n))) ELSE RFloor(RMul(x, RPow2(n))), n |-> n, o |-> o]
(* the part of length 2^-m of the cell c next to its included end *)
ToIncluded(c, m) == [k |-> RMul(c.k, RPow2(m)), n |-> c.n + m, o |-> c.o]
(* the half of the cell next to its excluded end *)
ToExcluded(c) == LET h == ToIncluded(c, 1)
                 IN  [h EXCEPT !.k = RAdd(h.k, IF c.o THEN "-1" ELSE "1")]
LeftHalf(c) == IF c.o THEN ToExcluded(c) ELSE ToIncluded(c, 1)
RightHalf(c) == IF c.o THEN ToIncluded(c, 1) ELSE ToExcluded(c)
RECURSIVE ShrinkLeft(_, _)
ShrinkLeft(c, m) == IF m = 0 THEN c ELSE ShrinkLeft(LeftHalf(c), m - 1)

(* Points and intervals *)
HasPoint(I, x) == IF I.o THEN RLt(I.inf, x) /\ RLe(x, I.sup) ELSE RLe(I.inf, x) /\ RLt(x, I.sup)
HasInterval(I, J) == RLe(I.inf, J.inf) /\ RLe(J.sup, I.sup)
(* non-empty intervals have a point in common *)
Meet(I, J) ==
    LET lo == RMax(I.inf, J.inf)
        hi == RMin(I.sup, J.sup)
    IN  RLt(lo, hi) \/ (lo = hi /\ HasPoint(I, lo) /\ HasPoint(J, lo))

(* The interval that is answered for instead of I at resolution n: its end *)
(* points moved to the grid of mesh 2^-n.                                  *)
Rounded(I, n, o) ==
    IF o THEN Iv(RGridCeil(I.inf, n), RGridCeil(I.sup, n), TRUE)
    ELSE Iv(RGridFloor(I.inf, n), RGridFloor(I.sup, n), FALSE)

(* cs is the canonical dissection of I: its cells have the given type,     *)
(* follow each other without gap or overlap, in increasing order of time,  *)
(* from end to end, and no two neighbours are the halves of one cell.      *)
IsDissection(cs, I) ==
    /\ \A j \in 1..Len(cs) : cs[j].o = I.o
    /\ \A j \in 2..Len(cs) : CellSup(cs[j-1]) = CellInf(cs[j])
    /\ IF RLe(I.sup, I.inf) THEN cs = <<>>
       ELSE /\ cs # <<>>
            /\ CellInf(cs[1]) = I.inf
            /\ CellSup(cs[Len(cs)]) = I.sup
    /\ \A j \in 2..Len(cs) :
          cs[j-1].n = cs[j].n =>
             ~RIsInt(RMul(CellInf(cs[j-1]), RPow2(cs[j].n - 1)))

(* The same dissection, computed: the largest cells of the grids 0..n that *)
(* fit, from left to right (for the clopen type).                          *)
RECURSIVE Dissect(_, _, _)
Dissect(lo, hi, n) ==          \* lo, hi on the grid of mesh 2^-n
    IF RLe(hi, lo) THEN <<>>
    ELSE LET RECURSIVE Grow(_)
             Grow(m) ==        \* coarsest mesh 2^-m whose cell starts at lo and fits
                IF /\ RIsInt(RMul(lo, RPow2(m - 1)))
                   /\ RLe(RAdd(lo, RPow2(1 - m)), hi)
                THEN Grow(m - 1) ELSE m
             m == Grow(n)
         IN  <<[k |-> RMul(lo, RPow2(m)), n |-> m, o |-> FALSE]>> \o Dissect(RAdd(lo, RPow2(-m)), hi, n)

(* Order of dyadic intervals of one type: by their included ends in the    *)
(* direction of the type, the coarser of two with the same end first.      *)
CellLess(c, d) ==
    /\ c.o = d.o
    /\ \/ IF c.o THEN RLt(Incl(d), Incl(c)) ELSE RLt(Incl(c), Incl(d))
       \/ Incl(c) = Incl(d) /\ c.n < d.n
CellContains(c, d) == c.o = d.o /\ HasInterval(CellIv(c), CellIv(d))

(* Sorting of a sequence of rationals *)
RECURSIVE Insert(_, _)
Insert(x, s) == IF s = <<>> THEN <<x>>
                ELSE IF RLe(x, s[1]) THEN <<x>> \o s ELSE <<s[1]>> \o Insert(x, Tail(s))
RECURSIVE SortR(_)
SortR(s) == IF s = <<>> THEN <<>> ELSE Insert(s[1], SortR(Tail(s)))
RECURSIVE Dedup(_)
Dedup(s) == IF Len(s) < 2 THEN s
            ELSE IF s[1] = s[2] THEN Dedup(Tail(s)) ELSE <<s[1]>> \o Dedup(Tail(s))
Range(s) == {s[j] : j \in 1..Len(s)}

(* A partition [inf, sup, o, pts]: the interval cut at the points pts, an  *)
(* increasing sequence of inner points.                                    *)
Ends(P) == <<P.inf>> \o P.pts \o <<P.sup>>
Piece(P, j) == Iv(Ends(P)[j], Ends(P)[j+1], P.o)        \* j in 1..Len(pts)+1
Mesh(P) == LET e == Ends(P)
               len == {RSub(e[j+1], e[j]) : j \in 1..Len(e)-1}
           IN  CHOOSE x \in len : \A y \in len : RLe(x, y)
Midpoints(P) ==
    LET e == Ends(P)
    IN  [P EXCEPT !.pts = Force([j \in 1..2*Len(P.pts)+1 |->
            IF j % 2 = 0 THEN P.pts[j \div 2]
            ELSE RDiv(RAdd(e[(j+1) \div 2], e[(j+1) \div 2 + 1]), "2")])]
(* all the cuts of both, in the smallest interval that contains both *)
Merge(P, Q) ==
    LET lo == RMin(P.inf, Q.inf)
        hi == RMax(P.sup, Q.sup)
        cuts == Dedup(SortR(Ends(P) \o Ends(Q)))
    IN  [inf |-> lo, sup |-> hi, o |-> P.o, pts |-> SelectSeq(cuts, LAMBDA x : x # lo /\ x # hi)]

(* Segmentation: of the 2^n cells of equal length of I, those that overlap *)
(* none of the sets q (pairs of end points) are good; the answer is the    *)
(* maximal runs of good cells, in increasing order.                        *)
Segments(I, n, qs) ==
    LET N == 2^n
        len == RSub(I.sup, I.inf)
        End(j) == RAdd(I.inf, RMul(len, RFrac(j, N)))
        Good(j) == /\ j \in 1..N
                   /\ \A m \in 1..Len(qs) : ~(RLt(qs[m][1], End(j)) /\ RLt(End(j-1), qs[m][2]))
        good == Force([j \in 1..N |-> Good(j)])
        G(j) == j \in 1..N /\ good[j]
        starts == SelectSeq([j \in 1..N |-> j], LAMBDA j : G(j) /\ ~G(j-1))
        stops == SelectSeq([j \in 1..N |-> j], LAMBDA j : G(j) /\ ~G(j+1))
    IN  [m \in 1..Len(starts) |-> Iv(End(starts[m]-1), End(stops[m]), FALSE)]
=============================================================================
