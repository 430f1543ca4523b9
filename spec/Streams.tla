------------------------------- MODULE Streams -------------------------------
(***************************************************************************)
(* Streams as maps from intervals to signatures.                           *)
(*                                                                         *)
(* A stream is a record, and never changes:                                *)
(*   W, D    its width and depth                                           *)
(*   kind    "ev": jumps, "pw": pieces of constant direction, or           *)
(*           "fn": given by the function f                                 *)
(*   ev      jumps [t, x] in order: at time t the path moves by exp(x)     *)
(*   pw      pieces [lo, hi, x] in order of time, without overlap: over    *)
(*           [lo, hi) the path moves by exp(x) at constant speed           *)
(*   fn      Lie elements: f(t) = fn[1] + t fn[2] + t^2 fn[3] + ..., plus  *)
(*           the x of the jumps [t, x] at or before the time; over a cell  *)
(*           of the grid of the query's resolution the path moves by the   *)
(*           exponential of the difference of the values at its ends       *)
(*   lo, hi  its support; outside it the path does not move                *)
(*   r       its resolution                                                *)
(* Jumps are seen at the grid of the stream's resolution.                  *)
(***************************************************************************)
EXTENDS Hall, Intervals

Never == [inf |-> "1", sup |-> "0"]     \* no interval
(* RealInterval semantics: the part of the query q in the support *)
Trim(s, q) ==
    IF RLt(q.sup, s.lo) \/ RLt(s.hi, q.inf) THEN Never
    ELSE LET t == [inf |-> RMax(q.inf, s.lo), sup |-> RMin(q.sup, s.hi)]
         IN  IF RLt(t.inf, t.sup) THEN t ELSE Never

(* 1 - the exponent e with 2^(e-1) <= x < 2^e, the resolution that sees x *)
RECURSIVE ExpUp(_, _)
ExpUp(x, e) == IF RLt(x, RPow2(e)) THEN e ELSE ExpUp(x, e + 1)
RECURSIVE ExpOf(_, _)
ExpOf(x, e) == IF RLe(RPow2(e - 1), x) THEN ExpUp(x, e) ELSE ExpOf(x, e - 1)
Min2(a, b) == IF a < b THEN a ELSE b
Max2(a, b) == IF a > b THEN a ELSE b
ParamToRes(x) == -Min2(0, ExpOf(x, 5) - 1)
(* the resolution used when none is asked for *)
DefaultRes(s, t) == Max2(s.r, ParamToRes(RSub(t.sup, t.inf)) + 2)

(* The interval [inf, sup) that is answered for the query q at resolution  *)
(* res, or Never.  res = "default": the resolution is not given.           *)
Effective(s, q, hasres, res) ==
    LET t == Trim(s, q)
    IN  IF t = Never THEN Never
        ELSE LET m == IF hasres THEN res ELSE DefaultRes(s, t)
                 R == [inf |-> RGridFloor(t.inf, m), sup |-> RGridFloor(t.sup, m), m |-> m]
             IN  IF RLt(R.inf, R.sup) THEN R ELSE Never

InSpan(t, R) == RLe(R.inf, t) /\ RLt(t, R.sup)
Overlap(p, R) == RSub(RMin(p.hi, R.sup), RMax(p.lo, R.inf))

(* The value of a function stream's function *)
RECURSIVE Horner(_, _, _)
Horner(fn, t, j) == IF j = Len(fn) THEN fn[j] ELSE TAdd(fn[j], TSmul(Horner(fn, t, j + 1), t))
RECURSIVE Jumped(_, _, _)
Jumped(v, ev, t) == IF ev = <<>> THEN v
                    ELSE Jumped(IF RLe(ev[1].t, t) THEN TAdd(v, ev[1].x) ELSE v, Tail(ev), t)
FnValue(s, t) == Jumped(Horner(s.fn, t, 1), s.ev, t)
FnMoves(s, R) ==
    LET n == RToInt(RMul(RSub(R.sup, R.inf), RPow2(R.m)))
        v == Force([j \in 1..n+1 |-> FnValue(s, RAdd(R.inf, RMul(RFrac(j - 1, 1), RPow2(-R.m))))])
    IN  [j \in 1..n |-> TSub(v[j+1], v[j])]

(* The moves of the path over R, in order: a sequence of Lie elements (as  *)
(* tensors of the stream's depth)                                          *)
Moves(s, R) ==
    IF R = Never THEN <<>>
    ELSE IF s.kind = "fn" THEN FnMoves(s, R)
    ELSE IF s.kind = "ev"
    THEN LET hit == SelectSeq(s.ev, LAMBDA e : InSpan(e.t, R))
         IN  [j \in 1..Len(hit) |-> hit[j].x]
    ELSE LET hit == SelectSeq(s.pw, LAMBDA p : RLt(p.lo, R.sup) /\ RLt(R.inf, p.hi))
         IN  [j \in 1..Len(hit) |-> TSmul(hit[j].x, RDiv(Overlap(hit[j], R), RSub(hit[j].hi, hit[j].lo)))]

(* Signature and log-signature at depth D *)
SigOver(s, R, D) ==
    LET ms == Moves(s, R)
    IN  TExpProd(s.W, D, [j \in 1..Len(ms) |-> TToDepth(ms[j], D)])
Sig(s, q, hasres, res, D) == SigOver(s, Effective(s, q, hasres, res), D)
LogSig(s, q, hasres, res, D) == TLog(Sig(s, q, hasres, res, D))

(* Jumps in order of time, those at one time in the order given *)
RECURSIVE InsertEv(_, _)
InsertEv(e, s) == IF s = <<>> THEN <<e>>
                  ELSE IF RLe(s[Len(s)].t, e.t) THEN Append(s, e)
                  ELSE Append(InsertEv(e, SubSeq(s, 1, Len(s) - 1)), s[Len(s)])
RECURSIVE SortEv(_)
SortEv(s) == IF s = <<>> THEN <<>>
             ELSE InsertEv(s[Len(s)], SortEv(SubSeq(s, 1, Len(s) - 1)))

(* A stream of Lie increments at the indices ts, seen at resolution r *)
IncrementStream(W, D, r, ts, xs) ==
    LET sorted == SortEv([j \in 1..Len(ts) |-> [t |-> ts[j], x |-> xs[j]]])
        n == Len(sorted)
    IN  [W |-> W, D |-> D, kind |-> "ev", r |-> r, pw |-> <<>>,
         ev |-> [j \in 1..n |-> [sorted[j] EXCEPT !.t = RGridFloor(sorted[j].t, r)]],
         lo |-> RGridFloor(sorted[1].t, r), hi |-> RAdd(sorted[n].t, RPow2(-r))]

PiecewiseStream(W, D, r, ps) ==
    [W |-> W, D |-> D, kind |-> "pw", r |-> r, ev |-> <<>>, pw |-> ps,
     lo |-> ps[1].lo, hi |-> ps[Len(ps)].hi]

FunctionStream(W, D, r, fn, jumps, lo, hi) ==
    [W |-> W, D |-> D, kind |-> "fn", r |-> r, ev |-> jumps, pw |-> <<>>, fn |-> fn,
     lo |-> lo, hi |-> hi]

(* A tensor valued stream [s, lo, hi, v]: over [lo, hi) the value starts   *)
(* at v and moves as the stream s.                                         *)
\* (the value at a time is exact where the stream interpolates, and seen at
\* the stream's resolution where it does not)
TvNear(y, lo, hi) == IF y.s.kind = "pw" THEN [inf |-> lo, sup |-> hi, m |-> y.s.r]
                     ELSE [inf |-> RGridFloor(lo, y.s.r), sup |-> RGridFloor(hi, y.s.r), m |-> y.s.r]
TvOver(y, R, D) == LET ms == IF RLt(R.inf, R.sup) THEN Moves(y.s, R) ELSE <<>>
                   IN  TExpProd(y.s.W, D, [j \in 1..Len(ms) |-> TToDepth(ms[j], D)])
TvValueAt(y, t) == IF t = y.lo THEN y.v ELSE TMul(y.v, TvOver(y, TvNear(y, y.lo, t), y.s.D))
TvQuery(y, lo, hi) == LET l == RMax(lo, y.lo)
                      IN  [y EXCEPT !.lo = l, !.hi = RMin(hi, y.hi), !.v = TvValueAt(y, l)]
TvSig(y, lo, hi, res, D) == TvOver(y, [inf |-> RGridFloor(lo, res), sup |-> RGridFloor(hi, res), m |-> res], D)

Restrict(s, lo, hi) == [s EXCEPT !.lo = lo, !.hi = hi]

(* The stream with constant direction on each piece of the partition whose *)
(* cuts (ends included) are given, and the same signature over it.         *)
Simplify(s, cuts, res, D) ==
    PiecewiseStream(s.W, D, res,
        [j \in 1..Len(cuts)-1 |->
            [lo |-> cuts[j], hi |-> cuts[j+1],
             x |-> LogSig(s, [inf |-> cuts[j], sup |-> cuts[j+1]], TRUE, res, D)]])

(* Derivative of exp at x in direction p: [v, d], v = exp(x) *)
RECURSIVE DExpFrom(_, _, _, _)
DExpFrom(x, p, n, N) ==
    IF n > N THEN [v |-> TOne(TWidth(x), TDepth(x)), d |-> TZero(TWidth(x), TDepth(x))]
    ELSE LET h == DExpFrom(x, p, n + 1, N)
         IN  [v |-> TAdd(TOne(TWidth(x), TDepth(x)), TSmul(TMul(x, h.v), RFrac(1, n))),
              d |-> TSmul(TAdd(TMul(p, h.v), TMul(x, h.d)), RFrac(1, n))]
DExp(x, p) == DExpFrom(x, p, 1, TDepth(x))
(* Several perturbations in a row: the derivative so far is carried along   *)
(* by the signature of the next interval, and that interval adds its own.   *)
RECURSIVE SigDerivative(_, _, _, _)
SigDerivative(W, D, x, p) ==
    IF x = <<>> THEN TZero(W, D)
    ELSE LET n == Len(x)
             b == DExp(x[n], p[n])
         IN  TAdd(TMul(SigDerivative(W, D, SubSeq(x, 1, n - 1), p), b.v), b.d)
=============================================================================
