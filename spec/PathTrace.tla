------------------------------ MODULE PathTrace ------------------------------
(***************************************************************************)
(* A Brownian stream is one path, but which one is not known: the path is  *)
(* a hidden variable of the specification, and an execution conforms if    *)
(* there is a path that gives all the answers.                             *)
(*                                                                         *)
(* What the answers so far tell of a path is a set of islands.  An island  *)
(* is a set of times together with the values of the path at them, up to   *)
(* the value at one of them: a sequence of [t, v], v the signature from    *)
(* the island's first time to t (taken backwards if t is earlier).  An     *)
(* answer over [a, b) where a and b are in one island is determined; any   *)
(* other answer is possible, and joins two islands, or makes one larger.   *)
(*                                                                         *)
(* Signatures are compared at depth K: the depth of the stream when all    *)
(* queries have one resolution; one (the increments of the path) when they *)
(* have not, since the area of a path seen more finely is another.         *)
(*                                                                         *)
(* A reloaded stream has the path of the original as far as it was seen,   *)
(* and continues as the original does when asked the same questions (they  *)
(* are twins, until they are asked different ones).  So does a stream from *)
(* the same seed.                                                          *)
(*                                                                         *)
(* Registers: [k |-> "s", s |-> stream, path |-> its path] or              *)
(*            [k |-> "a", D, l, v, R |-> the rounded interval]             *)
(***************************************************************************)
EXTENDS Streams, Json, IOUtils

Progs == Force(ndJsonDeserialize(IOEnv.TRACE))
Ctxs == Force({<<Progs[p].w, Progs[p].D>> : p \in 1..Len(Progs)})
ASSUME TLCSet(1, [c \in Ctxs |-> LieAlg(c[1], c[2])])
Tab(W, D) == TLCGet(1)[<<W, D>>]

VARIABLES prog, i, regs, paths, bad
vars == <<prog, i, regs, paths, bad>>

(* the inverse of a signature *)
Inv(v) == TAntipode(v)
Times(isl) == {isl[j].t : j \in 1..Len(isl)}
At(isl, t) == isl[CHOOSE j \in 1..Len(isl) : isl[j].t = t].v
(* the island in which t is, or 0 *)
Where(path, t) == IF \E n \in 1..Len(path) : t \in Times(path[n])
                  THEN CHOOSE n \in 1..Len(path) : t \in Times(path[n]) ELSE 0
(* the island seen from another value at its first time *)
Moved(isl, v) == [j \in 1..Len(isl) |-> [isl[j] EXCEPT !.v = TMul(v, isl[j].v)]]
Without(path, ns) == LET keep == SelectSeq([n \in 1..Len(path) |-> n], LAMBDA n : n \notin ns)
                     IN  [j \in 1..Len(keep) |-> path[keep[j]]]

Determined(path, R) == Where(path, R.inf) # 0 /\ Where(path, R.inf) = Where(path, R.sup)
Answer(path, R) == LET isl == path[Where(path, R.inf)]
                   IN  TMul(Inv(At(isl, R.inf)), At(isl, R.sup))
(* what is known after the answer v over R *)
Learn(path, R, v) ==
    LET m == Where(path, R.inf)
        n == Where(path, R.sup)
        one == TOne(TWidth(v), TDepth(v))
    IN  CASE m = 0 /\ n = 0 -> Append(path, <<[t |-> R.inf, v |-> one], [t |-> R.sup, v |-> v]>>)
          [] m # 0 /\ n = 0 -> [path EXCEPT ![m] = Append(@, [t |-> R.sup, v |-> TMul(At(@, R.inf), v)])]
          [] m = 0 /\ n # 0 -> [path EXCEPT ![n] = Append(@, [t |-> R.inf, v |-> TMul(At(@, R.sup), Inv(v))])]
          [] m = n          -> path
          [] OTHER          ->
                LET a == path[m]
                    b == path[n]
                    \* the value at the first time of b, seen from the first time of a
                    shift == TMul(TMul(At(a, R.inf), v), Inv(At(b, R.sup)))
                IN  Append(Without(path, {m, n}), a \o Moved(b, shift))

Init == /\ prog \in 1..Len(Progs)
        /\ i = 1
        /\ regs = <<>>
        /\ paths = <<>>
        /\ bad = ""

TenOf(W, D, e) == IF e.l THEN TExp(LieToTensor(Tab(W, D), e.v)) ELSE Force(e.v)
Close(a, b, dig) == \A d \in 1..Len(a) : \A k \in 1..Len(a[d]) : RClose(a[d][k], b[d][k], dig)

StepOf(p, e) ==
    LET K == p.K
        x == regs[e.a[1]]
    IN
    CASE e.op = "brown" ->
            /\ regs' = Append(regs, [k |-> "s", path |-> Len(paths) + 1,
                         s |-> [W |-> p.w, D |-> p.D, kind |-> "ev", r |-> e.res, lo |-> e.q[1], hi |-> e.q[2]]])
            /\ paths' = Append(paths, <<>>)
            /\ bad' = IF <<e.lo, e.hi, e.r, e.w, e.D>> = <<e.q[1], e.q[2], e.res, p.w, p.D>> THEN "" ELSE "support, resolution or context of a stream"
      [] e.op = "restr" ->
            /\ regs' = Append(regs, [x EXCEPT !.s = Restrict(x.s, e.q[1], e.q[2])])
            /\ paths' = paths
            /\ bad' = IF <<e.lo, e.hi>> = e.q THEN "" ELSE "support of a restricted stream"
      [] e.op = "copy" ->
            /\ regs' = Append(regs, [x EXCEPT !.path = Len(paths) + 1])
            /\ paths' = Append(paths, paths[x.path])
            /\ bad' = IF <<e.lo, e.hi, e.r, e.w, e.D>> = <<x.s.lo, x.s.hi, x.s.r, p.w, p.D>> THEN "" ELSE "support, resolution or context of a reloaded stream"
      [] e.op \in {"sig", "lsig"} ->
            LET R == Effective(x.s, IF e.q = <<>> THEN [inf |-> x.s.lo, sup |-> x.s.hi]
                                    ELSE [inf |-> e.q[1], sup |-> e.q[2]], e.res # 99, e.res)
                v == Force(TTruncate(TenOf(p.w, p.D, e), K))
                path == paths[x.path]
            IN  /\ regs' = Append(regs, [k |-> "a", l |-> e.l, v |-> e.v])
                /\ paths' = IF R = Never \/ Determined(path, R) THEN paths
                            ELSE Force([paths EXCEPT ![x.path] = Learn(path, R, v)])
                /\ bad' = IF e.D # p.D \/ e.w # p.w THEN "context of an answer"
                          ELSE IF e.l # (e.op = "lsig") THEN "type of an answer"
                          ELSE IF R = Never THEN IF v = TOne(p.w, K) THEN "" ELSE "a move where there is none"
                          ELSE IF Determined(path, R) /\ ~Close(v, Answer(path, R), p.dig)
                               THEN "another path: over " \o R.inf \o " " \o R.sup \o " it moved by " \o ToString(Answer(path, R))
                                    \o " before, now by " \o ToString(v)
                          \* the same question to a twin
                          ELSE IF e.eq # 0 /\ regs[e.eq].v # e.v THEN "a reloaded stream answers otherwise than the original"
                          ELSE ""
      [] OTHER -> /\ UNCHANGED <<regs, paths>>
                  /\ bad' = e.op \o ": " \o e.what

Next == /\ bad = ""
        /\ i <= Len(Progs[prog].ev)
        /\ i' = i + 1
        /\ prog' = prog
        /\ StepOf(Progs[prog], Progs[prog].ev[i])

Spec == Init /\ [][Next]_vars
Conforms == bad = ""
=============================================================================
