----------------------------- MODULE SchemaTrace -----------------------------
(***************************************************************************)
(* Executions of the real schemas are behaviours of a machine whose        *)
(* registers hold schemas (module Schema).                                 *)
(* Event: op, h: register, c: channel (from 1), l: label, n: number,       *)
(*        res: what was answered (-2: an error)                            *)
(*        obs: everything the schema in register h (or the new register)   *)
(*        answers afterwards                                               *)
(***************************************************************************)
EXTENDS Schema, Json, IOUtils, TLCExt

Progs == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES prog, i, regs, bad
vars == <<prog, i, regs, bad>>

RECURSIVE InsertAll(_, _)
InsertAll(s, n) == IF n = 0 THEN s ELSE InsertAll(Insert(s, "", "inc"), n - 1)
RECURSIVE ParseAll(_, _)
ParseAll(s, cs) ==
    IF cs = <<>> THEN s
    ELSE LET c == cs[1]
             t == Insert(s, c.l, c.ty)
             j == Find(t, Named(s, c.l))
             u == IF c.ll THEN SetLeadLag(t, j, TRUE) ELSE t
             RECURSIVE AddAll(_, _)
             AddAll(x, k) == IF k > Len(c.vs) THEN x ELSE AddAll(AddVariant(x, j, c.vs[k]), k + 1)
         IN  ParseAll(AddAll(u, 1), Tail(cs))

(* the registers after the event, and the answer *)
Out(e) ==
    LET s == regs[e.h]
        Same(a) == [regs |-> regs, res |-> a]
        Put(t, a) == [regs |-> [regs EXCEPT ![e.h] = t], res |-> a]
        New(t) == [regs |-> Append(regs, t), res |-> 0]
    IN
    CASE e.op = "new" -> New(InsertAll(Empty, e.n))
      [] e.op = "parse" -> New(ParseAll(Empty, e.cs))
      [] e.op = "ins" -> IF s.fin THEN Same(-2)
                         ELSE LET t == Insert(s, e.l, e.ty) IN Put(t, Find(t, Named(s, e.l)) - 1)
      [] e.op = "var" -> Put(AddVariant(s, e.c, e.l), 0)
      [] e.op = "addvar" -> IF s.ch[e.c].ty = "cat" /\ HasVariant(s.ch[e.c], VName(s.ch[e.c], e.l)) THEN Same(-2)
                            ELSE Put(AddVariant(s, e.c, e.l), 0)
      [] e.op = "ll" -> Put(SetLeadLag(s, e.c, e.n = 1), 0)
      [] e.op = "time" -> Put(AddTime(s), 0)
      [] e.op = "fin" -> IF CanClose(s, e.n) THEN Put(Close(s, e.n), 0) ELSE Same(-2)
      [] e.op \in {"json", "bin"} -> New(s)
      [] e.op = "find" -> Same(Find(s, e.l) - 1)
      [] e.op = "dimof" -> Same(DimOfLabel(s, e.l))
      [] e.op = "chof" -> Same(IF e.n >= DataWidth(s) THEN -2
                               ELSE (ChannelOf(s, e.n) - 1) * 100 + e.n - DimOf(s, ChannelOf(s, e.n)))
      [] e.op = "cmp" -> Same(IF Names(e.ty, e.l) THEN 1 ELSE 0)

(* what can be seen of a schema *)
Seen(s) ==
    [fin |-> s.fin, width |-> Width(s), wop |-> DataWidth(s), timekey |-> TimeKey(s),
     ch |-> [j \in 1..Len(s.ch) |->
        LET c == s.ch[j]
        IN  [l |-> c.l, ty |-> c.ty, ll |-> c.ll, dim |-> DimOf(s, j),
             vs |-> IF c.ll THEN <<"lead", "lag">> ELSE c.vs,
             vl |-> [v \in 1..NVar(c) |-> <<DimOf(s, j) + v - 1, VarLabel(c, v)>>]]],
     dims |-> [d \in 1..DataWidth(s) |->
        LET j == ChannelOf(s, d - 1) IN <<j - 1, d - 1 - DimOf(s, j), LabelOfDim(s, d - 1)>>]]
(* and from Python *)
PySeen(s) == [width |-> Width(s), labels |-> [d \in 1..DataWidth(s) |-> LabelOfDim(s, d - 1)]]

Check(e, o) ==
    IF e.op = "CRASH" \/ e.op = "EXC" THEN e.op \o ": " \o e.what
    ELSE IF o.res # e.res THEN "answer: specified " \o ToString(o.res) \o ", observed " \o ToString(e.res)
    ELSE LET s == o.regs[e.o]
             x == IF e.py THEN PySeen(s) ELSE Seen(s)
         IN  IF ~LayoutOK(s) THEN "layout"
             ELSE IF x = e.obs THEN ""
             ELSE "schema " \o ToString(e.o) \o ": specified " \o ToString(x) \o ", observed " \o ToString(e.obs)

Init == prog \in 1..Len(Progs) /\ i = 1 /\ regs = <<>> /\ bad = ""
Step ==
    LET e == Progs[prog].ev[i]
    IN  IF e.op = "CRASH" \/ e.op = "EXC" THEN regs' = regs /\ bad' = e.op \o ": " \o e.what
        ELSE LET o == TLCEval(Out(e)) IN regs' = o.regs /\ bad' = Check(e, o)
Next == /\ bad = ""
        /\ i <= Len(Progs[prog].ev)
        /\ i' = i + 1
        /\ prog' = prog
        /\ Step
Spec == Init /\ [][Next]_vars
Conforms == bad = ""
=============================================================================
