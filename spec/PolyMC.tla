------------------------------- MODULE PolyMC -------------------------------
(***************************************************************************)
(* All programs of MAXLEN statements over two variables (module            *)
(* PolyMachine).  Checked: objects stay canonical, and a statement changes *)
(* no object but its own.  With EMIT, each program is printed, to be       *)
(* carried out by the real classes.                                        *)
(***************************************************************************)
EXTENDS PolyMachine, Json, IOUtils, TLC

MaxLen == atoi(IOEnv.MAXLEN)
Emit == IOEnv.EMIT = "1"

VARIABLES heap, env, h
vars == <<heap, env, h>>
V(i) == [i |-> i, s |-> "0"]
S(c) == [i |-> 0, s |-> c]
St(op, d, x, y, n, l, s, v) == [op |-> op, d |-> d, x |-> x, y |-> y, n |-> n, l |-> l, s |-> s, v |-> v]
Mon(d, v) == St("mon", d, S("0"), S("0"), 0, "", "0", v)

Starts == {<<Mon(1, <<<<"x1", 1>>>>), Mon(2, <<<<"y1", 2>>, <<"x1", 1>>>>)>>,
           <<Mon(1, <<<<"x2", 2>>>>), St("poly", 2, S("0"), S("0"), 0, "", "0", <<<<<<<<"x1", 1>>>>, "1/2">>, <<<<>>, "-1">>>>)>>}
Stmts ==
    {St(op, 1, V(1), V(2), 0, "", "0", <<>>) : op \in {"iadd", "isub", "imul", "mul", "sub"}}
    \cup {St("imul", 2, V(2), V(1), 0, "", "0", <<>>), St("alias", 2, V(1), S("0"), 0, "", "0", <<>>)}
    \cup {St("alias", 1, V(2), S("0"), 0, "", "0", <<>>), St("imul", 1, V(1), V(1), 0, "", "0", <<>>)}
    \cup {St(op, 1, V(1), S(c), 0, "", "0", <<>>) : op \in {"idiv", "imul"}, c \in {"2", "0"}}
    \cup {St("ipow", 2, V(2), S("0"), n, "", "0", <<>>) : n \in {0, 2}}
    \cup {St("isub", 2, V(2), S("1"), 0, "", "0", <<>>), St("add", 2, S("-1/2"), V(2), 0, "", "0", <<>>)}
    \cup {St("setm", 1, V(1), S("0"), n, "x1", "0", <<>>) : n \in {0, 3}}
    \cup {St("setp", 2, V(2), V(1), 0, "", c, <<>>) : c \in {"0", "-3/2"}}
    \cup {St("isub", 2, V(2), V(1), 0, "", "0", <<>>)}

RECURSIVE Run(_, _, _, _)
Run(he, en, ss, k) == IF k > Len(ss) THEN [heap |-> he, env |-> en]
                      ELSE LET o == Apply(he, en, ss[k]) IN Run(o.heap, o.env, ss, k + 1)
Init == \E ss \in Starts : LET o == Run(<<>>, <<0, 0>>, ss, 1)
                           IN  heap = o.heap /\ env = o.env /\ h = ss
Typed(st) == CASE st.op = "setm" -> heap[env[st.x.i]].k = "M"
               [] st.op = "setp" -> heap[env[2]].k = "P" /\ heap[env[1]].k = "M"
               [] OTHER -> TRUE
Next == /\ Len(h) < MaxLen + 2
        /\ \E st \in Stmts :
              /\ Typed(st)
              /\ LET o == Apply(heap, env, st)
                 IN  heap' = o.heap /\ env' = o.env /\ h' = Append(h, st)
Spec == Init /\ [][Next]_vars

Canonical == \A k \in 1..Len(heap) : CanonV(heap[k])
Frame == [][\A k \in 1..Len(heap) : heap'[k] # heap[k] => k = env[h'[Len(h')].x.i]]_vars
Emitted == Len(h) = MaxLen + 2 /\ Emit => PrintT("HIST " \o ToJson([ops |-> h]))
=============================================================================
