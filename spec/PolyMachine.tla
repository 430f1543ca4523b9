---------------------------- MODULE PolyMachine -----------------------------
(***************************************************************************)
(* Statements over Python variables that hold monomials and polynomials.   *)
(* Variables refer to objects; objects are mutable, so the state is a heap *)
(* of values and a reference (0: none) for each variable.  An in-place     *)
(* operator changes the object its left operand refers to if the result    *)
(* has the same type, and refers the variable to a new object otherwise.   *)
(***************************************************************************)
EXTENDS Poly, TLC

Mo(m) == [k |-> "M", m |-> m, p |-> PZero]
Po(p) == [k |-> "P", m |-> MUnit, p |-> p]
Sc(c) == [k |-> "S", m |-> MUnit, p |-> PConst(c)]
Bad == [k |-> "E", m |-> MUnit, p |-> PZero]
AsP(v) == IF v.k = "M" THEN PTerm(v.m, "1") ELSE v.p
ScalarOf(v) == Coef(v.p, MUnit)

Binary(op, x, y, n) ==
    CASE op \in {"add", "iadd"} -> Po(PAdd(AsP(x), AsP(y)))
      [] op \in {"sub", "isub"} -> Po(PSub(AsP(x), AsP(y)))
      [] op \in {"mul", "imul"} -> IF x.k = "M" /\ y.k = "M" THEN Mo(MMul(x.m, y.m))
                                   ELSE Po(PMul(AsP(x), AsP(y)))
      [] op \in {"div", "idiv"} -> IF x.k = "S" \/ y.k # "S" \/ ScalarOf(y) = "0" THEN Bad
                                   ELSE Po(PSmul(AsP(x), RDiv("1", ScalarOf(y))))
      [] op \in {"pow", "ipow"} -> IF n < 0 THEN Bad
                                   ELSE IF x.k = "M" THEN Mo(MPow(x.m, n)) ELSE Po(PPow(x.p, n))
(* an in-place operator that changes the object itself *)
Mutates(op, x, y) == \/ x.k = "P" /\ op \in {"iadd", "isub", "imul", "idiv"}
                     \/ x.k = "M" /\ (op = "ipow" \/ (op = "imul" /\ y.k = "M"))

RECURSIVE MonProd(_, _)
MonProd(s, k) == IF k > Len(s) THEN MUnit ELSE MMul(MSet(MUnit, s[k][1], s[k][2]), MonProd(s, k + 1))
RECURSIVE PolySum(_, _)
PolySum(s, k) == IF k > Len(s) THEN PZero ELSE PAdd(PTerm(MonProd(s[k][1], 1), s[k][2]), PolySum(s, k + 1))

Operand(heap, env, o) == IF o.i > 0 THEN heap[env[o.i]] ELSE Sc(o.s)
YesNo(b) == IF b THEN "yes" ELSE "no"

(* st: statement; the heap, the references and the answer after it *)
Apply(heap, env, st) ==
    LET x == Operand(heap, env, st.x)
        y == Operand(heap, env, st.y)
        Same(a) == [heap |-> heap, env |-> env, res |-> a]
        New(v) == [heap |-> Append(heap, v), env |-> [env EXCEPT ![st.d] = Len(heap) + 1], res |-> ""]
        Put(v) == [heap |-> [heap EXCEPT ![env[st.x.i]] = v], env |-> env, res |-> ""]
        op == st.op
    IN
    CASE op = "mon" -> IF \E k \in 1..Len(st.v) : st.v[k][2] < 0 THEN Same("ERR") ELSE New(Mo(MonProd(st.v, 1)))
      [] op = "poly" -> New(Po(PolySum(st.v, 1)))
      [] op = "polyof" -> New(Po(PMul(AsP(x), AsP(y))))          \* P(monomial, scalar)
      [] op = "alias" -> [heap |-> heap, env |-> [env EXCEPT ![st.d] = env[st.x.i]], res |-> ""]
      [] op = "pos" -> New(Po(AsP(x)))
      [] op = "neg" -> New(Po(PNeg(AsP(x))))
      [] op = "pickle" -> New(x)
      [] op \in {"add", "sub", "mul", "div", "pow"} ->
            LET v == Force(Binary(op, x, y, st.n)) IN IF v.k = "E" THEN Same("ERR") ELSE New(v)
      [] op \in {"iadd", "isub", "imul", "idiv", "ipow"} ->
            LET v == Force(Binary(op, x, y, st.n))
            IN  IF v.k = "E" THEN Same("ERR") ELSE IF Mutates(op, x, y) THEN Put(v) ELSE New(v)
      [] op = "setm" -> IF st.n < 0 THEN Same("ERR") ELSE Put(Mo(MSet(x.m, st.l, st.n)))
      [] op = "setp" -> Put(Po(PSet(x.p, y.m, st.s)))
      [] op = "getm" -> Same(ToString(Pow(x.m, st.l)))
      [] op = "getp" -> Same(Coef(x.p, y.m))
      [] op = "len" -> Same(ToString(IF x.k = "M" THEN Cardinality(DOMAIN x.m) ELSE Cardinality(DOMAIN x.p)))
      [] op = "bool" -> Same(YesNo(IF x.k = "M" THEN x.m # MUnit ELSE x.p # PZero))
      [] op = "deg" -> Same(ToString(IF x.k = "M" THEN MDeg(x.m) ELSE PDeg(x.p)))
      [] op = "eq" -> Same(YesNo(x = y))
      [] op = "cmp" -> Same("")      \* see Ordered

(* the order of monomials is total, and lower degrees come first *)
Ordered(x, y, c) ==
    /\ c.eq = (x.m = y.m) /\ c.ne = ~c.eq
    /\ (c.lt \/ c.gt) = ~c.eq /\ ~(c.lt /\ c.gt)
    /\ c.le = (c.lt \/ c.eq) /\ c.ge = (c.gt \/ c.eq)
    /\ (MDeg(x.m) < MDeg(y.m) => c.lt) /\ (MDeg(x.m) > MDeg(y.m) => c.gt)
    /\ (c.eq => c.hash)

(* objects are in canonical form *)
CanonV(v) == IF v.k = "M" THEN \A l \in DOMAIN v.m : v.m[l] > 0
             ELSE \A m \in DOMAIN v.p : v.p[m] # "0" /\ \A l \in DOMAIN m : m[l] > 0
=============================================================================
