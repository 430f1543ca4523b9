-------------------------------- MODULE Ticks --------------------------------
(***************************************************************************)
(* Schemas, and the path that a sequence of ticks describes.               *)
(*                                                                         *)
(* A channel is [l |-> label, ty |-> type, vs |-> variants]; the type is   *)
(* "inc" (increments), "val" (values), "ll" (values, lead and lag), "cat"  *)
(* (categories) .  A schema is a sequence of channels.  Channels own       *)
(* consecutive dimensions, in order; time, when it is a channel, is last.  *)
(*                                                                         *)
(* A tick is [t |-> time, l |-> label, ty |-> type, x |-> number or        *)
(* variant], in the order in which ticks are given.                        *)
(***************************************************************************)
EXTENDS Streams

ChanWidth(c) == CASE c.ty = "ll" -> 2 [] c.ty = "cat" -> Len(c.vs) [] OTHER -> 1
RECURSIVE SchemaWidth(_)
SchemaWidth(chs) == IF chs = <<>> THEN 0
                    ELSE SchemaWidth(SubSeq(chs, 1, Len(chs)-1)) + ChanWidth(chs[Len(chs)])
HasLabel(chs, l) == \E j \in 1..Len(chs) : chs[j].l = l
ChanOf(chs, l) == CHOOSE j \in 1..Len(chs) : chs[j].l = l
(* the dimensions of channel j are FirstDim + 0, 1, .. *)
FirstDim(chs, j) == 1 + SchemaWidth(SubSeq(chs, 1, j-1))
IndexIn(s, x) == CHOOSE j \in 1..Len(s) : s[j] = x

(* A channel is added where there is none with its label. *)
AddChannel(chs, l, ty) == IF HasLabel(chs, l) THEN chs ELSE Append(chs, [l |-> l, ty |-> ty, vs |-> <<>>])
AddVariant(chs, l, v) ==
    LET j == ChanOf(chs, l)
    IN  IF \E k \in 1..Len(chs[j].vs) : chs[j].vs[k] = v THEN chs
        ELSE [chs EXCEPT ![j].vs = Append(chs[j].vs, v)]
(* the schema that a sequence of ticks describes *)
RECURSIVE InferSchema(_)
InferSchema(tks) ==
    IF tks = <<>> THEN <<>>
    ELSE LET k == tks[Len(tks)]
             chs == AddChannel(InferSchema(SubSeq(tks, 1, Len(tks)-1)), k.l, k.ty)
         IN  IF k.ty = "cat" THEN AddVariant(chs, k.l, k.x) ELSE chs

(* All ticks after the first n, as jumps; last[j]: latest value of channel *)
(* j; at: time of the latest tick.  time: the dimension of time, or 0.     *)
RECURSIVE TickJumps(_, _, _, _, _, _, _)
TickJumps(W, D, chs, time, tks, last, at) ==
    IF tks = <<>> THEN <<>>
    ELSE LET k == tks[1]
             j == ChanOf(chs, k.l)
             d == FirstDim(chs, j)
             L(i, c) == TSmul(TLetter(W, D, i), c)
             diff == RSub(k.x, last[j])
             \* values and increments follow the tick, lead-lag the channel
             base == CASE k.ty = "inc" -> L(d, k.x)
                       [] k.ty = "cat" -> L(d + IndexIn(chs[j].vs, k.x) - 1, "1")
                       [] k.ty = "val" /\ chs[j].ty # "ll" -> L(d, diff)
                       [] k.ty = "val" /\ chs[j].ty = "ll" -> TCbh(W, D, <<L(d, diff), L(d + 1, diff)>>)
             x == IF time = 0 THEN base ELSE TAdd(base, L(time, RSub(k.t, at)))
         IN  <<[t |-> k.t, x |-> x]>> \o
             TickJumps(W, D, chs, time, Tail(tks), IF k.ty = "val" THEN [last EXCEPT ![j] = k.x] ELSE last, k.t)

(* tk: [ch |-> schema, infer |-> whether it is to be inferred,             *)
(*      time |-> BOOLEAN, ticks |-> ticks].  Times count from the first    *)
(* tick given.                                                             *)
TickStream(W, D, r, tk) ==
    LET chs == IF tk.infer THEN InferSchema(tk.ticks) ELSE tk.ch
        t0 == tk.ticks[1].t
        tks == SortEv([j \in 1..Len(tk.ticks) |-> [tk.ticks[j] EXCEPT !.t = RSub(tk.ticks[j].t, t0)]])
        ev == TickJumps(W, D, chs, IF tk.time THEN SchemaWidth(chs) + 1 ELSE 0, tks,
                        [j \in 1..Len(chs) |-> "0"], "0")
        n == Len(ev)
        Cell(j) == RGridFloor(ev[j].t, r)
    IN  [W |-> W, D |-> D, kind |-> "ev", r |-> r, pw |-> <<>>,
         ev |-> [j \in 1..n |-> [ev[j] EXCEPT !.t = Cell(j)]],
         lo |-> RMin("0", Cell(1)), hi |-> RMax("1", RAdd(Cell(n), RPow2(-r)))]
=============================================================================
