---------------------------- MODULE ScalarTrace ----------------------------
(***************************************************************************)
(* Recorded executions on scalars and arrays of scalars are behaviours of  *)
(* this machine: registers regs hold scalars, arrs arrays of one type.     *)
(***************************************************************************)
EXTENDS Scalars, Json, IOUtils, TLC

Progs == Force(ndJsonDeserialize(IOEnv.TRACE))
VARIABLES prog, i, regs, arrs, bad
vars == <<prog, i, regs, arrs, bad>>

S(o) == [t |-> o.t, v |-> PolyOf(o.v)]
Arr(o) == [t |-> o.t, v |-> [k \in 1..Len(o.v) |-> PolyOf(o.v[k])]]
Zero == [t |-> "0", v |-> PZero]

Value(op, x, y) == CASE op = "add" -> PAdd(x, y) [] op = "sub" -> PSub(x, y) [] op = "mul" -> PMul(x, y)
                     [] op = "div" -> PSmul(x, RDiv("1", Num(y)))
Show(p) == ToString([m \in DOMAIN p |-> p[m]])
Say(c, what, exp, obs) == IF c THEN "" ELSE what \o ": specified " \o ToString(exp) \o ", observed " \o ToString(obs)

(* x op y in type t: both are converted first.  When they are not held     *)
(* exactly by t, nothing is specified.                                     *)
Arith(op, t, x, y, obs) == IF Fits(t, x) /\ Fits(t, y) THEN Rounded(t, Value(op, x, y), obs) ELSE TRUE

BinBad(op, x, y, e, obs) ==
    IF op = "div" /\ (y.v = PZero \/ ~ IsConst(y.v)) THEN Say(e.exc # "", "refusal", "an error", e.exc)
    ELSE IF e.exc # "" THEN (IF op = "div" /\ y.t = "P" THEN "" ELSE "unexpected error: " \o e.exc)
    ELSE LET t == Promotions(x.t, y.t)
             ts == t \cup (IF y.v = PZero THEN {x.t} ELSE {}) \cup (IF x.v = PZero THEN {x.t, y.t} ELSE {})
         IN  IF ~ obs.t \in ts THEN Say(FALSE, "type", t, obs.t)
             ELSE IF e.res # <<>> THEN Say(~ Fits(obs.t, Value(op, x.v, y.v)), "value", Value(op, x.v, y.v), "infinite")
             ELSE Say(Arith(op, obs.t, x.v, y.v, obs.v), "value", Value(op, x.v, y.v), obs.v)

Bin(op) == CASE op \in {"add", "iadd", "aadd"} -> "add" [] op \in {"sub", "isub", "asub"} -> "sub"
             [] op \in {"mul", "imul", "amul"} -> "mul" [] op \in {"div", "idiv", "adiv"} -> "div"

(* an element of an array keeps its type *)
ElemBad(op, t, x, y, e, obs) ==
    IF op = "div" /\ (y = PZero \/ ~ IsConst(y)) THEN Say(e.exc # "", "refusal", "an error", e.exc)
    ELSE IF e.exc # "" THEN "unexpected error: " \o e.exc
    ELSE IF e.res # <<>> THEN Say(~ Fits(t, Value(op, x, y)), "value", Value(op, x, y), "infinite")
    ELSE Say(Arith(op, t, x, y, obs), "value", Value(op, x, y), obs)
SameButBad(old, new, k) ==
    IF old.t # new.t THEN Say(FALSE, "type of the array", old.t, new.t)
    ELSE IF Len(old.v) # Len(new.v) THEN Say(FALSE, "size of the array", Len(old.v), Len(new.v))
    ELSE Say(\A j \in 1..Len(old.v) : j # k => old.v[j] = new.v[j], "other elements", old.v, new.v)
ConvBad(t, p, e, obs) ==
    IF e.exc # "" THEN (IF Fits(t, p) \/ t \in Floats THEN "unexpected error: " \o e.exc ELSE "")
    ELSE IF e.res # <<>> THEN Say(~ Fits(t, p), "value", p, "infinite")
    ELSE Say(Rounded(t, p, obs), "value", p, obs)

(* an integer which is beyond the digits of the type of a float is not     *)
(* equal to any value of that type                                         *)
Past(x, y) == x.t \in Ints /\ y.t \in Floats /\ RLe(RPow2(Digits(y.t)), RAbs(Num(x.v)))
Beyond(x, y) == Past(x, y) \/ Past(y, x)

First(s) == LET J == {j \in 1..Len(s) : s[j] # ""} IN IF J = {} THEN "" ELSE s[CHOOSE j \in J : \A k \in J : j <= k]

(* coefficients of an element of type e.t read from the numbers e.w of      *)
(* Python (e.first), then multiplied or divided by the number e.y          *)
PyOps == {"py", "pymul", "pyrmul", "pydiv"}
PyBad(e, new) ==
    LET w == Force([k \in 1..Len(e.w) |-> PolyOf(e.w[k])])
        fst == Force([k \in 1..Len(e.first) |-> PolyOf(e.first[k])])
        y == PolyOf(e.y)
        op == IF e.op = "pydiv" THEN "div" ELSE "mul"
    IN  IF e.exc # "" THEN Say(e.op = "pydiv" /\ y = PZero, "unexpected error", "", e.exc)
        ELSE First(<<Say(Len(fst) >= Len(w), "size", Len(w), Len(fst))>>
                   \o [k \in 1..Len(fst) |-> ConvBad(e.t, IF k <= Len(w) THEN w[k] ELSE PZero, [e EXCEPT !.res = <<>>], fst[k])]
                   \o <<Say(e.before = e.first, "changed", e.first, e.before)>>
                   \o (IF e.res # <<>> THEN <<Say(\E k \in 1..Len(fst) : ~ Fits(e.t, Value(op, fst[k], y)), "value", "finite", "infinite")>>
                       ELSE IF e.op = "py" THEN <<Say(e.arr.v = e.first, "changed", e.first, e.arr.v)>>
                       ELSE IF op = "div" /\ y = PZero THEN <<"division by zero">>
                       ELSE [k \in 1..Len(fst) |-> Say(Len(new) = Len(fst) /\ Arith(op, e.t, fst[k], y, new[k]),
                                                        "value", Value(op, fst[k], y), new[k])]))

(* operators on a coefficient e.w[1] and a coefficient or number e.w[2] *)
PyScalarBad(e, obs) ==
    LET x == PolyOf(e.w[1])  y == PolyOf(e.w[2])
        r == CASE e.f = "neg" -> PNeg(x) [] e.f \in {"add", "radd"} -> PAdd(x, y) [] e.f = "sub" -> PSub(x, y)
               [] e.f = "rsub" -> PSub(y, x) [] e.f \in {"mul", "rmul"} -> PMul(x, y) [] OTHER -> PZero
    IN  IF e.exc # "" THEN "unexpected error: " \o e.exc
        ELSE IF e.f = "eq" THEN LET q == x = y IN Say(e.res = <<q, ~ q>>, "comparison", q, e.res)
        ELSE IF e.res # <<>> THEN Say(~ Fits("f", r), "value", r, "infinite")
        ELSE First(<<Say(Fits(e.t, x) /\ Fits(e.t, y) => Rounded(e.t, r, obs.v), "value", r, obs.v)>>)

EventBad(e, obs, arr) ==
    CASE e.op = "mk" ->
           LET p == PolyOf(e.v)
           IN  First(<<Say(obs.t = e.t, "type", e.t, obs.t), ConvBad(e.t, p, e, obs.v)>>)
      [] e.op = "copy" -> First(<<IF e.exc # "" THEN e.exc ELSE "", Say(obs.v = regs[e.a].v, "value", regs[e.a].v, obs.v),
                                  Say(obs.t = regs[e.a].t, "type", regs[e.a].t, obs.t)>>)
      [] e.op \in {"assign", "massign"} ->
           \* the value is converted to the type of the target; a target which is zero may take the type of the value
           LET x == regs[e.d]  y == regs[e.a]
           IN  First(<<Say(obs.t \in {x.t} \cup (IF x.v = PZero THEN {y.t} ELSE {}), "type", x.t, obs.t),
                       ConvBad(obs.t, y.v, e, obs.v)>>)
      [] e.op = "put" -> First(<<Say(obs.t = regs[e.d].t, "type", regs[e.d].t, obs.t), ConvBad(obs.t, PolyOf(e.v), e, obs.v)>>)
      [] e.op \in {"add", "sub", "mul", "div"} -> BinBad(e.op, regs[e.a], regs[e.b], e, obs)
      [] e.op \in {"iadd", "isub", "imul", "idiv"} -> BinBad(Bin(e.op), regs[e.d], regs[e.a], e, obs)
      [] e.op = "neg" -> First(<<IF e.exc # "" THEN e.exc ELSE "",
                                 Say(Rounded(obs.t, PNeg(regs[e.a].v), obs.v), "value", PNeg(regs[e.a].v), obs.v),
                                 Say(obs.t = regs[e.a].t \/ obs.v = PZero, "type", regs[e.a].t, obs.t)>>)
      [] e.op = "eq" -> LET q == regs[e.a].v = regs[e.b].v
                       IN  Say(e.res = <<q, ~ q>> \/ (e.res = <<FALSE, TRUE>> /\ Beyond(regs[e.a], regs[e.b])),
                                "comparison", q, e.res)
      [] e.op = "iszero" -> Say(e.res = <<regs[e.a].v = PZero>>, "zero", regs[e.a].v, e.res)
      [] e.op = "cast" -> IF e.exc # "" THEN (IF Fits(e.t, regs[e.a].v) \/ e.t \in Floats THEN "unexpected error: " \o e.exc ELSE "")
                          ELSE IF e.res = <<TRUE>> THEN Say(~ Fits(e.t, regs[e.a].v), "cast", regs[e.a].v, "infinite")
                          ELSE Say(Rounded(e.t, regs[e.a].v, PolyOf(e.obs.v)), "cast", regs[e.a].v, e.obs.v)
      [] e.op = "ser" -> First(<<IF e.exc # "" THEN e.exc ELSE "", Say(obs = regs[e.a], "reloaded", regs[e.a], obs)>>)
      [] e.op = "anew" -> First(<<IF e.exc # "" THEN e.exc ELSE "",
                                  Say(arr.t = e.t /\ Len(arr.v) = e.k - 1 /\ \A j \in 1..Len(arr.v) : arr.v[j] = PZero,
                                      "new array", <<e.t, e.k - 1>>, arr)>>)
      [] e.op = "adata" -> First(<<IF e.exc # "" THEN e.exc ELSE "",
                                  Say(arr = Arr([t |-> e.t, v |-> e.w]), "array", e.w, arr)>>)
      [] e.op = "aget" -> First(<<IF e.exc # "" THEN e.exc ELSE "",
                                  Say(obs = [t |-> arrs[e.a].t, v |-> arrs[e.a].v[e.k]], "element", arrs[e.a].v[e.k], obs)>>)
      [] e.op \in {"aadd", "asub", "amul", "adiv"} ->
           First(<<SameButBad(arrs[e.d], arr, e.k),
                   ElemBad(Bin(e.op), arr.t, arrs[e.d].v[e.k], regs[e.a].v, e, arr.v[e.k])>>)
      [] e.op = "aput" -> First(<<SameButBad(arrs[e.d], arr, e.k), ConvBad(arr.t, regs[e.a].v, e, arr.v[e.k])>>)
      [] e.op = "afill" -> First(<<Say(arr.t = arrs[e.d].t /\ Len(arr.v) = Len(arrs[e.d].v), "shape", arrs[e.d].t, arr)>>
                                 \o [j \in 1..Len(arr.v) |-> ConvBad(arr.t, regs[e.a].v, e, arr.v[j])])
      [] e.op \in {"acopy", "aassign", "aser"} -> First(<<IF e.exc # "" THEN e.exc ELSE "",
                                                  Say(arr = arrs[e.a], "copy", arrs[e.a], arr)>>)
      [] e.op = "aconv" -> First(<<SameButBad([arrs[e.d] EXCEPT !.v = [j \in 1..Len(arrs[e.d].v) |->
                                                    IF j <= Len(arrs[e.a].v) /\ j <= Len(arr.v) THEN arr.v[j] ELSE arrs[e.d].v[j]]],
                                              arr, 0)>>
                                 \o (IF e.res # <<>> THEN <<Say(\E j \in 1..Len(arrs[e.a].v) : ~ Fits(arr.t, arrs[e.a].v[j]),
                                                               "conversion", arrs[e.a].v, "infinite")>>
                                     ELSE [j \in 1..Len(arrs[e.a].v) |-> ConvBad(arr.t, arrs[e.a].v[j], e, arr.v[j])]))
      [] e.op = "pyscalar" -> PyScalarBad(e, obs)
      [] e.op \in PyOps -> PyBad(e, arr.v)
      [] e.op = "final" -> LET A == SelectSeq(arrs, LAMBDA x : x.t # "0")
                               E == [k \in 1..Len(e.all) |-> IF k <= Len(regs) THEN S(e.all[k]) ELSE Arr(e.all[k])]
                           IN  Say(Force(E) = regs \o A, "at the end", regs \o A, E)
IsReg(op) == op \in {"mk", "copy", "assign", "massign", "put", "add", "sub", "mul", "div", "iadd", "isub", "imul", "idiv", "neg",
                     "ser", "aget"}
IsArr(op) == op \in {"anew", "adata", "aput", "aadd", "asub", "amul", "adiv", "acopy", "aassign", "aconv", "afill", "aser"}

Init == /\ prog \in 1..Len(Progs) /\ i = 1 /\ bad = ""
        /\ regs = [k \in 1..Progs[prog].nr |-> Zero]
        /\ arrs = [k \in 1..Progs[prog].na |-> [t |-> "0", v |-> <<>>]]
Next == /\ bad = "" /\ i <= Len(Progs[prog].ev)
        /\ i' = i + 1 /\ prog' = prog
        /\ LET e == Progs[prog].ev[i]
           IN  IF e.op \in {"CRASH", "EXC"} THEN bad' = e.op \o ": " \o e.what /\ UNCHANGED <<regs, arrs>>
               ELSE LET obs == Force(S(e.obs))  arr == Force(Arr(e.arr))
                    IN  /\ bad' = EventBad(e, obs, arr)
                        /\ regs' = IF IsReg(e.op) /\ (e.exc = "" \/ obs.t # "0") THEN [regs EXCEPT ![e.d] = obs] ELSE regs
                        /\ arrs' = IF IsArr(e.op) THEN [arrs EXCEPT ![e.d] = arr] ELSE arrs
Spec == Init /\ [][Next]_vars
Conforms == bad = ""
=============================================================================
