------------------------------ MODULE SchemaMC -------------------------------
(***************************************************************************)
(* All histories of one schema over a small alphabet, up to MAXLEN steps.  *)
(* Checked: the layout is a bijection (LayoutOK), and a step keeps the     *)
(* channels there are and their order.  With EMIT, each history of that    *)
(* length is printed, to be carried out on the real class.                 *)
(***************************************************************************)
EXTENDS Schema, Json, IOUtils

MaxLen == atoi(IOEnv.MAXLEN)
Emit == IOEnv.EMIT = "1"
Labels == {"", "a", "ab", "1"}
Vars == {"", "u", "1"}

VARIABLES s, h
vars == <<s, h>>
Op(op, c, l, n, ty) == [op |-> op, h |-> IF op = "new" THEN 0 ELSE 1, c |-> c, l |-> l, n |-> n, ty |-> ty]

Init == s = Empty /\ h = <<Op("new", 0, "", 0, "")>>
Do(t, o) == s' = t /\ h' = Append(h, o)
Next ==
    /\ Len(h) < MaxLen
    /\ \/ \E l \in Labels, ty \in {"inc", "val", "cat"} :
            Do(IF s.fin THEN s ELSE Insert(s, l, ty), Op("ins", 0, l, 0, ty))
       \/ \E j \in 1..Len(s.ch), v \in Vars : s.ch[j].ty = "cat" /\ Do(AddVariant(s, j, v), Op("var", j, v, 0, ""))
       \/ \E j \in 1..Len(s.ch) : s.ch[j].ty # "cat" /\ Do(SetLeadLag(s, j, ~s.ch[j].ll), Op("ll", j, "", IF s.ch[j].ll THEN 0 ELSE 1, ""))
       \/ ~s.time /\ Do(AddTime(s), Op("time", 0, "", 0, ""))
       \/ ~s.fin /\ \E n \in {0, 3} : Do(IF CanClose(s, n) THEN Close(s, n) ELSE s, Op("fin", 0, "", n, ""))
Spec == Init /\ [][Next]_vars

Layout == LayoutOK(s)
Keeps == [][/\ Len(s'.ch) >= Len(s.ch)
            /\ \A j \in 1..Len(s.ch) : s'.ch[j].l = s.ch[j].l /\ s'.ch[j].ty = s.ch[j].ty
                                       /\ \A v \in 1..Len(s.ch[j].vs) : s'.ch[j].vs[v] = s.ch[j].vs[v]
            /\ (s.fin => s'.fin /\ Len(s'.ch) = Len(s.ch))]_vars
Emitted == Len(h) = MaxLen /\ Emit => PrintT("HIST " \o ToJson([ops |-> h]))
=============================================================================
