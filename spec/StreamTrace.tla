----------------------------- MODULE StreamTrace -----------------------------
(***************************************************************************)
(* Executions of the real streams are behaviours of a register machine     *)
(* whose registers hold streams (module Streams) and answers to queries.   *)
(* A query reads a stream register and writes a register with the answer;  *)
(* nothing else changes: no query depends on those before it, on those     *)
(* made at the same time by other threads, or on what became of their      *)
(* answers.                                                                *)
(*                                                                         *)
(* Register: [k |-> "s", t |-> type of scalars, s |-> stream] or           *)
(*           [k |-> "v", t |-> type, y |-> tensor valued stream] or        *)
(*           [k |-> "a", t |-> type of scalars, l |-> is Lie, D |-> depth, *)
(*            v |-> tensor]                                                *)
(***************************************************************************)
EXTENDS Streams, Ticks, Json, IOUtils

Progs == Force(ndJsonDeserialize(IOEnv.TRACE))
Ctxs == Force(UNION {{<<Progs[p].w, Progs[p].ds[j]>> : j \in 1..Len(Progs[p].ds)} : p \in 1..Len(Progs)})
ASSUME TLCSet(1, [c \in Ctxs |-> LieAlg(c[1], c[2])])
Tab(W, D) == TLCGet(1)[<<W, D>>]

VARIABLES prog, i, regs, bad
vars == <<prog, i, regs, bad>>

NewStream(t, s) == [k |-> "s", t |-> t, s |-> s]
NewValued(t, y) == [k |-> "v", t |-> t, y |-> y]
NewLie(t, D, v) == [k |-> "a", t |-> t, l |-> TRUE, D |-> D, v |-> v]
NewTen(t, D, v) == [k |-> "a", t |-> t, l |-> FALSE, D |-> D, v |-> v]
Lies(W, D, vs) == [j \in 1..Len(vs) |-> LieToTensor(Tab(W, D), vs[j])]
Query(s, q) == IF q = <<>> THEN [inf |-> s.lo, sup |-> s.hi] ELSE [inf |-> q[1], sup |-> q[2]]

(* The value of the register that event e writes; x: operands *)
Result(W, e, x) ==
    LET s == x[1].s             \* (only for streams)
        Q == Query(s, e.q)
        H == e.res # 99                    \* a resolution was given
        Stream(n) == NewStream(IF Len(x) = 0 THEN e.t ELSE x[1].t, n)
        \* queries name the type of their answer
        T == IF x[1].k = "s" THEN e.t ELSE x[1].t
        LieAns(D, v) == NewLie(T, D, v)
        TenAns(D, v) == NewTen(T, D, v)
    IN
    CASE e.op = "inc"   -> Stream(LET n == IncrementStream(W, e.D, e.res, e.ts, Lies(W, e.D, e.xs))
                                  IN  IF e.q = <<>> THEN n ELSE Restrict(n, e.q[1], e.q[2]))
      [] e.op = "pw"    -> Stream(PiecewiseStream(W, e.D, e.res,
                              LET xs == Lies(W, e.D, e.xs)
                              IN  [j \in 1..Len(e.ts) |-> [lo |-> e.ts[j][1], hi |-> e.ts[j][2], x |-> xs[j]]]))
      \* e.qs: jumps (their times), e.xs: the polynomial's coefficients, then those of the jumps
      [] e.op = "fn"    -> Stream(LET xs == Lies(W, e.D, e.xs)
                                      n == Len(xs) - Len(e.ts)
                                  IN  FunctionStream(W, e.D, e.res, SubSeq(xs, 1, n),
                                          [j \in 1..Len(e.ts) |-> [t |-> e.ts[j], x |-> xs[n + j]]],
                                          e.q[1], e.q[2]))
      \* tensor valued streams
      [] e.op = "tv"    -> NewValued(x[1].t, [s |-> s, lo |-> e.q[1], hi |-> e.q[2], v |-> Force(e.ten)])
      [] e.op = "tvfrom" -> \* the values are exp of e.xs at the times e.ts
                           LET vs == Lies(W, e.D, e.xs)
                               inc == [j \in 1..Len(vs)-1 |-> TCbh(W, e.D, <<TNeg(vs[j]), vs[j+1]>>)]
                               ev == [j \in 1..Len(vs)-1 |-> [t |-> RGridFloor(e.ts[j+1], e.res), x |-> inc[j]]]
                               hi == RAdd(e.ts[Len(e.ts)], RPow2(-e.res))
                           IN  NewValued(e.t, [s |-> [W |-> W, D |-> e.D, kind |-> "ev", r |-> e.res, pw |-> <<>>,
                                                      ev |-> ev, lo |-> e.ts[1], hi |-> hi],
                                               lo |-> e.ts[1], hi |-> hi, v |-> TExp(vs[1])])
      [] e.op = "tvq"   -> NewValued(x[1].t, TvQuery(x[1].y, e.q[1], e.q[2]))
      [] e.op = "tvini" -> NewTen(x[1].t, x[1].y.s.D, x[1].y.v)
      [] e.op = "tvend" -> NewTen(x[1].t, x[1].y.s.D, TvValueAt(x[1].y, x[1].y.hi))
      [] e.op = "tvsig" -> NewTen(x[1].t, e.D,
                               TvSig(x[1].y, IF e.q = <<>> THEN x[1].y.lo ELSE e.q[1],
                                     IF e.q = <<>> THEN x[1].y.hi ELSE e.q[2], IF H THEN e.res ELSE x[1].y.s.r, e.D))
      [] e.op = "tvlog" -> NewLie(x[1].t, e.D,
                               TLog(TvSig(x[1].y, IF e.q = <<>> THEN x[1].y.lo ELSE e.q[1],
                                     IF e.q = <<>> THEN x[1].y.hi ELSE e.q[2], IF H THEN e.res ELSE x[1].y.s.r, e.D)))
      [] e.op = "tvbase" -> NewStream(x[1].t, x[1].y.s)
      [] e.op = "tick"  -> Stream(LET n == TickStream(W, e.D, e.res, e.tk)
                                  IN  IF e.q = <<>> THEN n ELSE Restrict(n, e.q[1], e.q[2]))
      [] e.op = "restr" -> Stream(Restrict(s, e.q[1], e.q[2]))
      [] e.op = "simp"  -> Stream(Simplify(s, e.ts, IF H THEN e.res ELSE s.r, e.D))
      [] e.op = "copy"  -> x[1]            \* pickled and loaded again, or the same object
      [] e.op = "lsig"  -> LieAns(e.D, LogSig(s, Q, H, e.res, e.D))
      [] e.op = "sig"   -> TenAns(e.D, Sig(s, Q, H, e.res, e.D))
      [] e.op = "deriv" -> \* e.qs: intervals, e.xs: coordinates of the perturbations
                           LET ls == [j \in 1..Len(e.qs) |->
                                        LogSig(s, Query(s, e.qs[j]), H \/ e.pd, IF H THEN e.res ELSE s.r, e.D)]
                           IN  TenAns(e.D, SigDerivative(W, e.D, ls, Lies(W, e.D, e.xs)))
      \* an answer is changed in place by its owner
      [] e.op = "scale" -> [x[1] EXCEPT !.v = TSmul(x[1].v, e.c)]
      [] e.op = "plus"  -> [x[1] EXCEPT !.v = TAdd(x[1].v, x[2].v)]
      [] e.op = "clear" -> [x[1] EXCEPT !.v = TZero(W, x[1].D)]
      \* products of answers: Chen's identity
      [] e.op = "tmul"  -> TenAns(x[1].D, TMul(x[1].v, x[2].v))
      [] e.op = "cbh"   -> LieAns(e.D, TCbh(W, e.D, [j \in 1..Len(x) |-> TToDepth(x[j].v, e.D)]))
      [] e.op = "exp"   -> TenAns(e.D, TExp(x[1].v))
      [] e.op = "look"  -> x[1]

(* Observations *)
SameShape(a, b) == Len(a) = Len(b) /\ \A d \in 1..Len(a) : Len(a[d]) = Len(b[d])
Differ(dig, u, v) == IF dig = 0 THEN u # v ELSE ~RClose(u, v, dig)
DiffT(dig, h, a, b) ==
    IF ~SameShape(a, b) THEN "shape of register " \o ToString(h)
    ELSE IF a = b THEN ""
    ELSE LET off == {dk \in {<<d, k>> : d \in 1..Len(a), k \in 1..Len(a[Len(a)])} :
                        dk[2] <= Len(a[dk[1]]) /\ Differ(dig, a[dk[1]][dk[2]], b[dk[1]][dk[2]])}
         IN  IF off = {} THEN ""
             ELSE LET dk == CHOOSE x \in off : TRUE
                  IN  "register " \o ToString(h) \o ", word " \o ToString(Digits(Len(a[2]), dk[1]-1, dk[2]-1))
                      \o ": specified " \o a[dk[1]][dk[2]] \o ", observed " \o b[dk[1]][dk[2]]
                      \o " (" \o ToString(Cardinality(off)) \o " coefficients differ)"
Diff(W, r, o) ==
    IF r.k # o.k THEN "kind of register " \o ToString(o.h)
    ELSE IF r.t # o.t THEN "scalar type of register " \o ToString(o.h)
    ELSE IF r.k = "s"
    THEN IF r.s.lo # o.lo \/ r.s.hi # o.hi
         THEN "support of register " \o ToString(o.h) \o ": specified " \o r.s.lo \o " " \o r.s.hi
              \o ", observed " \o o.lo \o " " \o o.hi
         ELSE IF r.s.r # o.r THEN "resolution of register " \o ToString(o.h)
         ELSE IF W # o.w \/ r.s.D # o.D THEN "context of register " \o ToString(o.h) ELSE ""
    ELSE IF r.k = "v"
    THEN IF r.y.lo # o.lo \/ r.y.hi # o.hi
         THEN "domain of register " \o ToString(o.h) \o ": specified " \o r.y.lo \o " " \o r.y.hi
              \o ", observed " \o o.lo \o " " \o o.hi
         ELSE IF W # o.w \/ r.y.s.D # o.D THEN "context of register " \o ToString(o.h)
         ELSE DiffT(o.dig, o.h, r.y.v, Force(o.v))
    ELSE IF r.l # o.l THEN "type of register " \o ToString(o.h)
    ELSE IF r.D # o.D THEN "depth of register " \o ToString(o.h)
    ELSE DiffT(o.dig, o.h, r.v, IF o.l THEN LieToTensor(Tab(W, o.D), o.v) ELSE Force(o.v))
RECURSIVE FirstDiff(_, _, _, _)
FirstDiff(W, new, obs, j) ==
    IF j > Len(obs) THEN ""
    ELSE LET m == Diff(W, new[obs[j].h], obs[j])
         IN  IF m # "" THEN m ELSE FirstDiff(W, new, obs, j + 1)

Init == /\ prog \in 1..Len(Progs)
        /\ i = 1
        /\ regs = <<>>
        /\ bad = ""

Put(r, h, v) == IF h <= Len(r) THEN [r EXCEPT ![h] = v] ELSE Append(r, v)

Step ==
    LET p == Progs[prog]
        e == p.ev[i]
        x == [j \in 1..Len(e.a) |-> regs[e.a[j]]]
        new == Put(regs, e.r, Force(Result(p.w, e, x)))
        Obs(h) == e.obs[CHOOSE j \in 1..Len(e.obs) : e.obs[j].h = h]
        \* rounded coefficients: go on from what was observed
        sync == [h \in 1..Len(new) |->
                    IF new[h].k = "a" /\ \E j \in 1..Len(e.obs) : e.obs[j].h = h /\ e.obs[j].dig > 0
                    THEN [new[h] EXCEPT !.v = IF Obs(h).l THEN LieToTensor(Tab(p.w, Obs(h).D), Obs(h).v)
                                              ELSE Force(Obs(h).v)]
                    ELSE new[h]]
    IN  IF e.op \in {"CRASH", "EXC"}
        THEN regs' = regs /\ bad' = e.op \o ": " \o e.what
        ELSE LET msg == FirstDiff(p.w, new, e.obs, 1)
             IN  bad' = msg /\ regs' = IF msg = "" THEN Force(sync) ELSE regs

Next == /\ bad = ""
        /\ i <= Len(Progs[prog].ev)
        /\ i' = i + 1
        /\ prog' = prog
        /\ Step

Spec == Init /\ [][Next]_vars
Conforms == bad = ""
=============================================================================
