---------------------------- MODULE KernelTrace ----------------------------
(***************************************************************************)
(* Recorded calls of the kernels, against module Kernels.  A program is a  *)
(* width p.w and a sequence of calls; e.v are the views before the call,   *)
(* e.res the memory of the first view after it and e.clean says that no    *)
(* other memory changed (arguments, gaps between strided coefficients,     *)
(* guards on both sides).                                                  *)
(***************************************************************************)
EXTENDS Kernels, Json, IOUtils

Progs == Force(ndJsonDeserialize(IOEnv.TRACE))
VARIABLES prog, i, bad
vars == <<prog, i, bad>>

Verdict(W, e) ==
    IF ~e.clean THEN e.op \o ": memory outside the output view was changed"
    ELSE IF e.op \in {"csr", "csc"} THEN
         LET x == Apply(e) IN IF x = e.res THEN "" ELSE e.op \o ": specified " \o ToString(x) \o ", observed " \o ToString(e.res)
    ELSE IF e.op = "at" THEN IF e.res = e.m THEN "" ELSE "at: specified " \o ToString(e.m) \o ", observed " \o ToString(e.res)
    ELSE LET x == Force(Result(W, e))
             off == {d \in 1..e.v[1].n+1 : e.res[d] # x[1][d] /\ e.res[d] # x[2][d]}
         IN  IF off = {} THEN ""
             ELSE LET d == CHOOSE y \in off : \A z \in off : y <= z
                  IN  e.op \o ", degree " \o ToString(d - 1) \o ": specified " \o ToString(x[1][d])
                        \o ", observed " \o ToString(e.res[d])

Init == prog \in 1..Len(Progs) /\ i = 1 /\ bad = ""
Next == /\ bad = "" /\ i <= Len(Progs[prog].ev)
        /\ i' = i + 1 /\ prog' = prog
        /\ LET p == Progs[prog]  e == p.ev[i]
           IN  bad' = IF e.op \in {"CRASH", "EXC"} THEN e.op \o ": " \o e.what ELSE Verdict(p.w, e)
Spec == Init /\ [][Next]_vars
Conforms == bad = ""
=============================================================================
