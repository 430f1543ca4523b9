---------------------------- MODULE IntervalTrace ----------------------------
(***************************************************************************)
(* Executions of the interval classes as behaviours of a machine whose     *)
(* registers hold dyadic numbers [k,n], cells [k,n,o], intervals           *)
(* [inf,sup,o] and partitions [inf,sup,o,pts].  Event e: operation e.op on *)
(* registers e.a with arguments e.x; e.r is the register written (0:       *)
(* none), e.res the answer, e.obs the registers observed afterwards.       *)
(***************************************************************************)
EXTENDS Intervals, Sequences, Json, IOUtils

Progs == Force(ndJsonDeserialize(IOEnv.TRACE))

VARIABLES prog, i, regs, bad
vars == <<prog, i, regs, bad>>

AsIv(v) == IF "inf" \in DOMAIN v THEN Iv(v.inf, v.sup, v.o) ELSE CellIv(v)

(* operations that give a new value for register e.r *)
Value(e, v) ==
    CASE e.op = "mk"        -> e.x
      [] e.op = "rebase"    -> Rebased(v[1], e.x)
      [] e.op = "iadd"      -> [v[1] EXCEPT !.k = RAdd(@, e.x)]
      [] e.op = "dincl"     -> [k |-> v[1].k, n |-> v[1].n]
      [] e.op = "dexcl"     -> [k |-> RAdd(v[1].k, IF v[1].o THEN "-1" ELSE "1"), n |-> v[1].n]
      [] e.op = "dinf"      -> [k |-> IF v[1].o THEN RSub(v[1].k, "1") ELSE v[1].k, n |-> v[1].n]
      [] e.op = "dsup"      -> [k |-> IF v[1].o THEN v[1].k ELSE RAdd(v[1].k, "1"), n |-> v[1].n]
      [] e.op = "contained" -> ToIncluded(v[1], e.x)
      [] e.op = "omitted"   -> ToExcluded(v[1])
      [] e.op = "left"      -> ShrinkLeft(v[1], e.x)
      [] e.op = "right"     -> RightHalf(v[1])
      [] e.op = "flip"      -> LET k == v[1].k
                                   h == RMul(k, RPow2(-1))
                                   up == (RIsInt(h) /\ ~v[1].o) \/ (~RIsInt(h) /\ v[1].o)
                               IN  [v[1] EXCEPT !.k = RAdd(k, IF up THEN "1" ELSE "-1")]
      [] e.op = "expand"    -> CellAt(Incl(v[1]), v[1].n - e.x, v[1].o)
      [] e.op = "advance"   -> [v[1] EXCEPT !.k = RAdd(@, IF v[1].o THEN "-1" ELSE "1")]
      [] e.op = "cell"      -> CellAt(DValue(v[1]), e.x.n, e.x.o)
      [] e.op = "cellat"    -> CellAt(e.x.p, e.x.n, e.x.o)
      [] e.op = "real"      -> AsIv(v[1])
      [] e.op = "part"      -> LET P == Iv(v[1].inf, v[1].sup, v[1].o)
                               IN  [inf |-> P.inf, sup |-> P.sup, o |-> P.o,
                                    pts |-> SortR(SelectSeq(e.x, LAMBDA p : RLt(P.inf, p) /\ RLt(p, P.sup)))]
      [] e.op = "midpoints" -> Midpoints(v[1])
      [] e.op = "insert"    -> IF HasPoint(v[1], e.x) THEN [v[1] EXCEPT !.pts = Insert(e.x, @)] ELSE v[1]
      [] e.op = "merge"     -> Merge(v[1], v[2])
      [] e.op = "copy"      -> v[1]
Writes == {"mk", "rebase", "iadd", "dincl", "dexcl", "dinf", "dsup", "contained", "omitted", "left", "right", "flip",
           "expand", "advance", "cell", "cellat", "real", "part", "midpoints", "insert", "merge", "copy"}

(* what an operation answers *)
Holds(e, v) ==
    CASE e.op = "rebase"    -> e.res = (Rebased(v[1], e.x).n = e.x)
      [] e.op = "insert"    -> e.res = IF HasPoint(v[1], e.x) THEN "ok" ELSE "error"
      [] e.op = "float"     -> e.res = DValue(v[1])
      [] e.op = "lt"        -> e.res = RLt(DValue(v[1]), DValue(v[2]))
      [] e.op = "le"        -> e.res = RLe(DValue(v[1]), DValue(v[2]))
      [] e.op = "gt"        -> e.res = RLt(DValue(v[2]), DValue(v[1]))
      [] e.op = "ge"        -> e.res = RLe(DValue(v[2]), DValue(v[1]))
      [] e.op = "deq"       -> e.res = (v[1].k = v[2].k /\ v[1].n = v[2].n)
      [] e.op = "req"       -> e.res = (DValue(v[1]) = DValue(v[2]))
      [] e.op = "ends"      -> LET I == AsIv(v[1])
                               IN  e.res = <<I.inf, I.sup, IF I.o THEN I.sup ELSE I.inf, IF I.o THEN I.inf ELSE I.sup>>
      [] e.op = "haspoint"  -> e.res = HasPoint(AsIv(v[1]), e.x)
      [] e.op = "hasiv"     -> e.res = HasInterval(AsIv(v[1]), AsIv(v[2]))
      [] e.op = "meet"      -> e.res = Meet(AsIv(v[1]), AsIv(v[2]))
      [] e.op = "eq"        -> e.res = (AsIv(v[1]) = AsIv(v[2]))
      [] e.op = "cellless"  -> e.res = CellLess(v[1], v[2])
      [] e.op = "cellhas"   -> e.res = CellContains(v[1], v[2])
      [] e.op = "cellsort"  -> /\ \A j \in 2..Len(e.res) : ~CellLess(e.res[j], e.res[j-1])
                               /\ Len(e.res) = Len(v)
                               /\ Range(e.res) = Range(v)
      [] e.op = "aligned"   -> e.res = RIsInt(RMul(v[1].k, RPow2(-1)))
      [] e.op = "dissect"   -> LET R == Rounded(AsIv(v[1]), e.x.n, e.x.o)
                               IN  /\ IsDissection(e.res, R)
                                   /\ ~R.o => e.res = Dissect(R.inf, R.sup, e.x.n)
      [] e.op = "segment"   -> e.res = Segments(v[1], e.x.n, e.x.q)
      [] e.op = "plen"      -> e.res = Len(v[1].pts) + 1
      [] e.op = "piece"     -> e.res = Piece(v[1], e.x + 1)
      [] e.op = "mesh"      -> e.res = Mesh(v[1])
      [] e.op = "points"    -> e.res = v[1].pts
      [] e.op = "peq"       -> e.res = (v[1] = v[2])
      [] OTHER              -> TRUE

Init == /\ prog \in 1..Len(Progs)
        /\ i = 1
        /\ regs = <<>>
        /\ bad = ""

Put(r, h, v) == IF h <= Len(r) THEN [r EXCEPT ![h] = v] ELSE Append(r, v)

Step ==
    LET e == Progs[prog].ev[i]
        v == [j \in 1..Len(e.a) |-> regs[e.a[j]]]
        new == IF e.op \in Writes THEN Put(regs, e.r, Force(Value(e, v))) ELSE regs
        off == {j \in 1..Len(e.obs) : e.obs[j].v # new[e.obs[j].h]}
    IN  IF e.op \in {"CRASH", "EXC"}
        THEN regs' = regs /\ bad' = e.op \o ": " \o e.what
        ELSE /\ regs' = new
             /\ bad' = IF off # {}
                       THEN LET j == CHOOSE x \in off : TRUE
                            IN  "register " \o ToString(e.obs[j].h) \o ": specified " \o ToString(new[e.obs[j].h])
                                \o ", observed " \o ToString(e.obs[j].v)
                       ELSE IF ~Holds(e, v)
                       THEN "operation " \o e.op \o " on " \o ToString(v) \o " answered " \o ToString(e.res)
                       ELSE ""

Next == /\ bad = ""
        /\ i <= Len(Progs[prog].ev)
        /\ i' = i + 1
        /\ prog' = prog
        /\ Step

Spec == Init /\ [][Next]_vars
Conforms == bad = ""
=============================================================================
