------------------------------ MODULE StreamMC -------------------------------
(***************************************************************************)
(* How increment streams answer queries, as a design: a query is cut into  *)
(* dyadic cells, a cell coarser than the stream's resolution is answered   *)
(* from its halves, a finer one from the cell whose included end it has,   *)
(* and answers for cells of the stream's resolution are kept in a cache,   *)
(* which restrictions of the stream share and which travels through a file *)
(* to its pickled copies.  Checked over all histories of up to MAXLEN      *)
(* operations on two streams: every answer is the one that module Streams  *)
(* gives, which knows nothing of all this (Answers), and stays so when     *)
(* owners of answers change them; caches hold what they should (Caches).   *)
(*                                                                         *)
(* FLAW names a mistake in the design, for which the check has to fail     *)
(* (harness/props.py runs all of them):                                    *)
(*   ctx    the cache answers for contexts it was not computed in          *)
(*   ids    all streams keep their caches in one file                      *)
(*   alias  an answer for a single cell is the cache's own                 *)
(*   fine   cells finer than the stream's resolution are empty             *)
(*   order  the right half comes before the left                           *)
(* With EMIT, the histories of that length are printed, to be carried out  *)
(* on the real streams.                                                    *)
(***************************************************************************)
EXTENDS Streams, Json, IOUtils

MaxLen == atoi(IOEnv.MAXLEN)
Emit == IOEnv.EMIT = "1"
Flaw == IOEnv.FLAW
W == 2
Dep == 2
ASSUME TLCSet(1, LieAlg(W, Dep))

(* raw data of the streams; two of them in each history *)
Roots == <<
    << [res |-> 1, ts |-> <<"0", "1/2", "5/4">>, xs |-> <<<<"1", "0", "1/2">>, <<"0", "1", "0">>, <<"-1", "2", "1">>>>],
       [res |-> 1, ts |-> <<"1/2", "1">>, xs |-> <<<<"2", "1", "0">>, <<"-1/2", "1", "3">>>>] >>,
    << [res |-> 0, ts |-> <<"1/4", "3/4", "1">>, xs |-> <<<<"1", "1", "0">>, <<"0", "-1", "1">>, <<"3", "0", "0">>>>],
       [res |-> 2, ts |-> <<"-1/4", "0", "5/8", "3/4">>,
        xs |-> <<<<"0", "1", "0">>, <<"1", "0", "0">>, <<"1", "1", "1">>, <<"0", "2", "0">>>>] >> >>
Queries == {[q |-> <<"0", "2">>, res |-> 99, D |-> 2], [q |-> <<"0", "1">>, res |-> 1, D |-> 2],
            [q |-> <<"0", "1">>, res |-> 1, D |-> 1], [q |-> <<"1/4", "1">>, res |-> 2, D |-> 2],
            [q |-> <<"1/2", "3/4">>, res |-> 3, D |-> 2], [q |-> <<"1/2", "1">>, res |-> 1, D |-> 2],
            [q |-> <<"-1/2", "5/4">>, res |-> 0, D |-> 2]}
Cut == <<"1/4", "1">>         \* the restriction

Abstract(d) == IncrementStream(W, Dep, d.res, d.ts, [j \in 1..Len(d.xs) |-> LieToTensor(TLCGet(1), d.xs[j])])
RawOf(d) == SortEv([j \in 1..Len(d.ts) |-> [t |-> d.ts[j], x |-> LieToTensor(TLCGet(1), d.xs[j])]])

(* The algorithm: [v, c], the answer for a cell and the cache afterwards *)
Hits(raw, I) == SelectSeq(raw, LAMBDA e : InSpan(e.t, I))
Impl(raw, c, Dq) == LET hs == Hits(raw, CellIv(c)) IN TCbh(W, Dq, [j \in 1..Len(hs) |-> TToDepth(hs[j].x, Dq)])
RECURSIVE Ask(_, _, _, _, _)
Ask(raw, r, c, Dq, cache) ==
    IF c.n > r
    THEN LET up == CellAt(Incl(c), r, FALSE)
         IN  IF Flaw # "fine" /\ Incl(up) = Incl(c) THEN Ask(raw, r, up, Dq, cache)
             ELSE [v |-> TZero(W, Dq), c |-> cache]
    ELSE IF Hits(raw, CellIv(c)) = <<>> THEN [v |-> TZero(W, Dq), c |-> cache]
    ELSE IF c.n = r
    THEN IF Dq # Dep /\ Flaw # "ctx" THEN [v |-> Impl(raw, c, Dq), c |-> cache]
         ELSE IF c \in DOMAIN cache THEN [v |-> TToDepth(cache[c], Dq), c |-> cache]
         ELSE LET v == Impl(raw, c, Dq) IN [v |-> v, c |-> (c :> TToDepth(v, Dep)) @@ cache]
    ELSE LET a == Ask(raw, r, LeftHalf(c), Dq, cache)
             b == Ask(raw, r, RightHalf(c), Dq, a.c)
         IN  [v |-> TCbh(W, Dq, IF Flaw = "order" THEN <<b.v, a.v>> ELSE <<a.v, b.v>>), c |-> b.c]
RECURSIVE AskAll(_, _, _, _, _, _)
AskAll(raw, r, cs, Dq, cache, vs) ==
    IF cs = <<>> THEN [v |-> TCbh(W, Dq, vs), c |-> cache]
    ELSE LET a == Ask(raw, r, cs[1], Dq, cache) IN AskAll(raw, r, Tail(cs), Dq, a.c, Append(vs, a.v))
CellsOf(s, y) ==
    LET R == Effective(s, [inf |-> y.q[1], sup |-> y.q[2]], y.res # 99, y.res)
    IN  IF R = Never THEN <<>> ELSE Dissect(R.inf, R.sup, R.m)
Answer(s, raw, cache, y) == AskAll(raw, s.r, CellsOf(s, y), y.D, cache, <<>>)

(* regs: streams [k "s", s (module Streams), o (object)] and answers       *)
(* [k "a", want, got, D, n (of the owner's changes), o, cell]; objs: what  *)
(* is behind streams: data and cache; files: saved caches of each root     *)
VARIABLES regs, objs, files, h
vars == <<regs, objs, files, h>>

NewOp(d) == [op |-> "inc", D |-> Dep, res |-> d.res, ts |-> d.ts, xs |-> d.xs, form |-> "lie", noind |-> FALSE,
             q |-> <<>>, vt |-> "d", t |-> "R"]
Streams_ == {j \in 1..Len(regs) : regs[j].k = "s"}
Answers_ == {j \in 1..Len(regs) : regs[j].k = "a"}
FileOf(o) == IF Flaw = "ids" THEN 1 ELSE objs[o].root
NoCache == <<>>

Init == \E v \in 1..Len(Roots) :
          LET ds == Roots[v]
          IN  /\ objs = Force([j \in 1..2 |-> [raw |-> RawOf(ds[j]), cache |-> NoCache, root |-> j]])
              /\ regs = Force([j \in 1..2 |-> [k |-> "s", s |-> Abstract(ds[j]), o |-> j]])
              /\ files = [j \in 1..2 |-> NoCache]
              /\ h = [j \in 1..2 |-> NewOp(ds[j])]

Query(x, y) ==
    LET s == regs[x].s
        o == regs[x].o
        g == Force(Answer(s, objs[o].raw, objs[o].cache, y))
        cs == CellsOf(s, y)
        lie == Len(h) % 2 = 0
    IN  /\ regs' = Append(regs, [k |-> "a", D |-> y.D, got |-> g.v, o |-> o,
                                 want |-> Force(TLog(Sig(s, [inf |-> y.q[1], sup |-> y.q[2]], y.res # 99, y.res, y.D))),
                                 lie |-> lie, cell |-> IF Len(cs) = 1 THEN cs[1] ELSE [k |-> "", n |-> 0, o |-> FALSE]])
        /\ objs' = [objs EXCEPT ![o].cache = g.c]
        /\ h' = Append(h, [op |-> IF lie THEN "lsig" ELSE "sig", a |-> <<x>>, q |-> y.q, res |-> y.res, D |-> y.D, t |-> "R",
                           form |-> "iv", rform |-> "kw", cform |-> "ctx"])
        /\ UNCHANGED files
Restr(x) == /\ regs[x].s.lo # Cut[1]
            /\ regs' = Append(regs, [regs[x] EXCEPT !.s = Restrict(@, Cut[1], Cut[2])])
            /\ h' = Append(h, [op |-> "restr", a |-> <<x>>, q |-> Cut, form |-> "real"])
            /\ UNCHANGED <<objs, files>>
Reload(x) == LET o == regs[x].o
                 f == IF objs[o].cache = NoCache THEN files ELSE [files EXCEPT ![FileOf(o)] = objs[o].cache]
             IN  /\ files' = f
                 /\ objs' = Append(objs, [objs[o] EXCEPT !.cache = f[FileOf(o)]])
                 /\ regs' = Append(regs, [regs[x] EXCEPT !.o = Len(objs) + 1])
                 /\ h' = Append(h, [op |-> "copy", a |-> <<x>>])
Change(x) == LET a == regs[x]
             IN  /\ a.lie
                 /\ regs' = [regs EXCEPT ![x].got = TSmul(@, "2"), ![x].want = TSmul(@, "2")]
                 /\ objs' = IF Flaw = "alias" /\ a.cell \in DOMAIN objs[a.o].cache
                            THEN [objs EXCEPT ![a.o].cache[a.cell] = TSmul(@, "2")] ELSE objs
                 /\ h' = Append(h, [op |-> "scale", a |-> <<x>>, r |-> x, c |-> "2"])
                 /\ UNCHANGED files
Next == /\ Len(h) < MaxLen + 2
        /\ \/ \E x \in Streams_ : \E y \in Queries : Query(x, y)
           \/ \E x \in Streams_ : Restr(x) \/ Reload(x)
           \/ \E x \in Answers_ : Change(x)
Spec == Init /\ [][Next]_vars

Answers == \A x \in Answers_ : regs[x].got = regs[x].want
Caches == \A o \in 1..Len(objs) : \A c \in DOMAIN objs[o].cache : objs[o].cache[c] = Impl(objs[o].raw, c, Dep)
Emitted == Len(h) = MaxLen + 2 /\ Emit => PrintT("HIST " \o ToJson([w |-> W, ops |-> h]))
=============================================================================
