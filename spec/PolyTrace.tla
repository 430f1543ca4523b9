----------------------------- MODULE PolyTrace ------------------------------
(***************************************************************************)
(* Executions of statements on the real Monomial and PolynomialScalar      *)
(* objects are behaviours of PolyMachine.  Event: the statement e.st, the  *)
(* answer e.res, and what the variables hold afterwards: e.obs[j], and the *)
(* first variable referring to the same object.                            *)
(***************************************************************************)
EXTENDS PolyMachine, Json, IOUtils

Progs == Force(ndJsonDeserialize(IOEnv.TRACE))
NVars == 3
VARIABLES prog, i, heap, env, bad
vars == <<prog, i, heap, env, bad>>

Seen(o) == IF o.k = "M" THEN Mo(MonOf(o.m)) ELSE Po(PolyOf(o.p))
CanonS(o) == IF o.k = "M" THEN MCanon(o.m) ELSE PCanon(o.p)
First(en, j) == CHOOSE k \in 1..j : en[k] = en[j] /\ \A q \in 1..k-1 : en[q] # en[j]
Wrong(o, ob, j) ==
    LET b == ob[j] IN
    IF o.env[j] = 0 THEN b.k # "-"
    ELSE IF b.k = "-" THEN TRUE
    ELSE ~CanonS(b) \/ Seen(b) # o.heap[o.env[j]] \/ b.is # First(o.env, j)
Check(e, o) ==
    LET st == e.st  w == {j \in 1..NVars : Wrong(o, e.obs, j)}
    IN  IF st.op = "cmp"
        THEN IF Ordered(heap[env[st.x.i]], heap[env[st.y.i]], e.c) THEN "" ELSE "order " \o ToString(e.c)
        ELSE IF o.res # e.res THEN "answer: specified " \o o.res \o ", observed " \o e.res
        ELSE IF w = {} THEN ""
        ELSE LET j == CHOOSE k \in w : TRUE
             IN  "variable " \o ToString(j) \o ": specified "
                 \o (IF o.env[j] = 0 THEN "nothing" ELSE ToString(o.heap[o.env[j]]) \o " as " \o ToString(First(o.env, j)))
                 \o ", observed " \o ToString(e.obs[j])

Init == prog \in 1..Len(Progs) /\ i = 1 /\ heap = <<>> /\ env = [j \in 1..NVars |-> 0] /\ bad = ""
Next == /\ bad = "" /\ i <= Len(Progs[prog].ev)
        /\ i' = i + 1 /\ prog' = prog
        /\ LET e == Progs[prog].ev[i]
           IN  IF e.op \in {"CRASH", "EXC"} THEN heap' = heap /\ env' = env /\ bad' = e.op \o ": " \o e.what
               ELSE LET o == TLCEval(Apply(heap, env, e.st))
                    IN  heap' = o.heap /\ env' = o.env /\ bad' = Check(e, o)
Spec == Init /\ [][Next]_vars
Conforms == bad = ""
=============================================================================
