------------------------------- MODULE Schema --------------------------------
(***************************************************************************)
(* Schemas: how the channels of the data are laid out in the dimensions of *)
(* a stream.                                                               *)
(*                                                                         *)
(* Channel: [l |-> label, ty |-> "inc", "val" or "cat", ll |-> lead-lag,   *)
(*           vs |-> variants of a categorical channel]                     *)
(* Schema:  [ch |-> channels in order, time |-> time is a channel too,     *)
(*           fin |-> closed for changes]                                   *)
(* A channel occupies one dimension for each of its variants; the channels *)
(* are laid out in the order in which they were inserted, time last.       *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC

NewChannel(l, ty) == [l |-> l, ty |-> ty, ll |-> FALSE, vs |-> <<>>]
Empty == [ch |-> <<>>, time |-> FALSE, fin |-> FALSE]

(* the labels of its variants: <<"">> where there is just the channel *)
Variants(c) == IF c.ll THEN <<"lead", "lag">> ELSE IF c.ty = "cat" THEN c.vs ELSE <<"">>
NVar(c) == Len(Variants(c))
VarLabel(c, v) == IF Variants(c)[v] = "" THEN c.l ELSE c.l \o ":" \o Variants(c)[v]

(* first dimension of channel j *)
RECURSIVE DimOf(_, _)
DimOf(s, j) == IF j = 1 THEN 0 ELSE DimOf(s, j - 1) + NVar(s.ch[j-1])
DataWidth(s) == DimOf(s, Len(s.ch) + 1)
Width(s) == DataWidth(s) + (IF s.time THEN 1 ELSE 0)
TimeKey(s) == IF s.time THEN DataWidth(s) + 1 ELSE 0

(* channel and variant of dimension d *)
ChannelOf(s, d) == CHOOSE j \in 1..Len(s.ch) : DimOf(s, j) <= d /\ d < DimOf(s, j) + NVar(s.ch[j])
LabelOfDim(s, d) == LET j == ChannelOf(s, d) IN VarLabel(s.ch[j], d - DimOf(s, j) + 1)

(* label y is that of channel x or of one of its variants *)
Names(y, x) ==
    /\ x # "" /\ y # ""
    /\ Len(y) >= Len(x)
    /\ SubSeq(y, 1, Len(x)) = x
    /\ Len(y) = Len(x) \/ SubSeq(y, Len(x) + 1, Len(x) + 1) = ":"
(* the channel a label belongs to; 0: none *)
Find(s, y) ==
    IF \E j \in 1..Len(s.ch) : Names(y, s.ch[j].l)
    THEN CHOOSE j \in 1..Len(s.ch) : Names(y, s.ch[j].l) /\ \A k \in 1..j-1 : ~Names(y, s.ch[k].l)
    ELSE 0
(* the dimension of a label; -2: an error *)
DimOfLabel(s, y) ==
    LET j == Find(s, y)
    IN  IF j = 0 THEN -2
        ELSE LET c == s.ch[j]
                 v == SubSeq(y, Len(c.l) + 2, Len(y))
             IN  IF Len(y) = Len(c.l) THEN DimOf(s, j)
                 ELSE IF \E k \in 1..NVar(c) : Variants(c)[k] = v
                 THEN DimOf(s, j) + (CHOOSE k \in 1..NVar(c) : Variants(c)[k] = v) - 1
                 ELSE -2

(* changes; a change of a closed schema is an error *)
(* a channel without a label gets the next number that is free *)
RECURSIVE FreeNumber(_, _)
FreeNumber(s, n) == IF Find(s, ToString(n)) = 0 THEN ToString(n) ELSE FreeNumber(s, n + 1)
Named(s, l) == IF l = "" THEN FreeNumber(s, Len(s.ch)) ELSE l
Insert(s, l, ty) == IF Find(s, Named(s, l)) > 0 THEN s ELSE [s EXCEPT !.ch = Append(s.ch, NewChannel(Named(s, l), ty))]
HasVariant(c, v) == \E k \in 1..Len(c.vs) : c.vs[k] = v
VName(c, v) == IF v = "" THEN ToString(Len(c.vs)) ELSE v
AddVariant(s, j, v) ==
    LET c == s.ch[j]
    IN  IF c.ty # "cat" \/ HasVariant(c, VName(c, v)) THEN s
        ELSE [s EXCEPT !.ch[j].vs = Append(c.vs, VName(c, v))]
SetLeadLag(s, j, b) == IF s.ch[j].ty = "cat" THEN s ELSE [s EXCEPT !.ch[j].ll = b]
AddTime(s) == [s EXCEPT !.time = TRUE]
(* closed, with unnamed increment channels up to width n (0: as it is) *)
RECURSIVE Pad(_, _)
Pad(s, k) == IF k <= 0 THEN s ELSE Pad(Insert(s, "", "inc"), k - 1)
CanClose(s, n) == n = 0 \/ n = Width(s) \/ (n > Width(s) /\ ~s.fin)
Close(s, n) == [Pad(s, n - Width(s)) EXCEPT !.fin = TRUE]

(* The layout is a bijection between the dimensions and the variants of    *)
(* the channels, and the labels of the dimensions name just those.         *)
LayoutOK(s) ==
    /\ \A d \in 0..DataWidth(s)-1 :
          /\ \E j \in 1..Len(s.ch) : DimOf(s, j) <= d /\ d < DimOf(s, j) + NVar(s.ch[j])
          /\ DimOfLabel(s, LabelOfDim(s, d)) = d
    /\ \A j \in 1..Len(s.ch) : \A v \in 1..NVar(s.ch[j]) :
          LET d == DimOf(s, j) + v - 1
          IN  d < DataWidth(s) /\ ChannelOf(s, d) = j
    /\ \A d, f \in 0..DataWidth(s)-1 : d # f => LabelOfDim(s, d) # LabelOfDim(s, f)
=============================================================================
