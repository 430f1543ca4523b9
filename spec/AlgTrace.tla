------------------------------ MODULE AlgTrace ------------------------------
(***************************************************************************)
(* A register machine over the truncated tensor algebra, and the check     *)
(* that executions of the real algebra classes are behaviours of it.       *)
(*                                                                         *)
(* The machine holds abstract values: a free tensor or a shuffle tensor is *)
(* the tensor of its coefficients, a Lie element is its image in the       *)
(* tensor algebra.  Every operation of the library is a step that writes   *)
(* one register and leaves all other registers as they are.                *)
(*                                                                         *)
(* An execution is a program p (a line of the file TRACE): a context       *)
(* (p.w, p.d), the number of digits p.dig to which coefficients are        *)
(* compared (0: exactly) and the events p.ev.  Event e was recorded around *)
(* a real call: e.op, operand registers e.a, scalars e.s, result register  *)
(* e.r; e.obs is what could be observed afterwards in the registers that   *)
(* took part (and, at the end of a program, in all of them).               *)
(***************************************************************************)
EXTENDS Hall, Poly, Json, IOUtils

Progs == Force(ndJsonDeserialize(IOEnv.TRACE))
Ctxs == Force({<<Progs[p].w, Progs[p].d>> : p \in 1..Len(Progs)})
(* the tables are computed once, before the first state *)
ASSUME TLCSet(1, [c \in Ctxs |-> LieAlg(c[1], c[2])])
LieTab(c) == TLCGet(1)[c]

VARIABLES prog, i, regs, bad
vars == <<prog, i, regs, bad>>

(* Coefficients that are polynomials (p.sym) are evaluated at the point     *)
(* p.pt: evaluation is a homomorphism (PolyLaws), so every operation must   *)
(* commute with it.  The points are chosen such that no other polynomial    *)
(* than zero of the size at hand vanishes there.                            *)
Sym == Progs[prog].sym
Num(c) == IF Sym THEN ValueAt(c, Progs[prog].pt) ELSE c
Vect(v) == IF Sym THEN Force([k \in 1..Len(v) |-> Num(v[k])]) ELSE v
Tens(v) == IF Sym THEN Force([d \in 1..Len(v) |-> Vect(v[d])]) ELSE v
CanonV(v) == \A k \in 1..Len(v) : PCanon(v[k])
Canon(o) == ~Sym \/ (IF o.l THEN CanonV(o.v) ELSE \A d \in 1..Len(o.v) : CanonV(o.v[d]))

(* The abstract value an operation yields. *)
Result(L, W, D, e, x, s) ==  \* x: operand values, s: scalars
    CASE e.op = "lit"    -> Tens(e.v)     \* the coefficients handed to the constructor
      [] e.op = "litL"   -> LieToTensor(L, Vect(e.v))
      [] e.op = "id"     -> x[1]
      [] e.op = "zero"   -> TZero(W, D)
      [] e.op = "add"    -> TAdd(x[1], x[2])
      [] e.op = "sub"    -> TSub(x[1], x[2])
      [] e.op = "neg"    -> TNeg(x[1])
      [] e.op = "smul"   -> TSmul(x[1], s[1])
      [] e.op = "smulc"  -> TSmul(x[1], x[2][e.key[1] + 1][e.key[2] + 1])
      [] e.op = "sdiv"   -> TSmul(x[1], RDiv("1", s[1]))
      [] e.op = "mul"    -> TMul(x[1], x[2])
      [] e.op = "shuf"   -> TShuffle(x[1], x[2])
      [] e.op = "half"   -> THalfShuffle(x[1], x[2])
      [] e.op = "adj"    -> TAdjoint(x[1], x[2])
      [] e.op = "brk"    -> TBracket(x[1], x[2])
      [] e.op = "exp"    -> TExp(x[1])
      [] e.op = "log"    -> TLog(x[1])
      [] e.op = "anti"   -> TAntipode(x[1])
      [] e.op = "fmexp"  -> TMul(x[1], TExp(x[2]))
      [] e.op = "asm"    -> TAdd(x[1], TSmul(x[2], s[1]))
      [] e.op = "ssm"    -> TSub(x[1], TSmul(x[2], s[1]))
      [] e.op = "asd"    -> TAdd(x[1], TSmul(x[2], RDiv("1", s[1])))
      [] e.op = "ssd"    -> TSub(x[1], TSmul(x[2], RDiv("1", s[1])))
      [] e.op = "addmul_T" -> TAdd(x[1], TMul(x[2], x[3]))
      [] e.op = "submul_T" -> TSub(x[1], TMul(x[2], x[3]))
      [] e.op = "mulsm_T"  -> TSmul(TMul(x[1], x[2]), s[1])
      [] e.op = "mulsd_T"  -> TSmul(TMul(x[1], x[2]), RDiv("1", s[1]))
      [] e.op = "addmul_S" -> TAdd(x[1], TShuffle(x[2], x[3]))
      [] e.op = "submul_S" -> TSub(x[1], TShuffle(x[2], x[3]))
      [] e.op = "mulsm_S"  -> TSmul(TShuffle(x[1], x[2]), s[1])
      [] e.op = "mulsd_S"  -> TSmul(TShuffle(x[1], x[2]), RDiv("1", s[1]))
      [] e.op = "addmul_L" -> TAdd(x[1], TBracket(x[2], x[3]))
      [] e.op = "submul_L" -> TSub(x[1], TBracket(x[2], x[3]))
      [] e.op = "mulsm_L"  -> TSmul(TBracket(x[1], x[2]), s[1])
      [] e.op = "mulsd_L"  -> TSmul(TBracket(x[1], x[2]), RDiv("1", s[1]))
      [] e.op = "cbh"    -> TCbh(W, D, x)
      [] e.op = "expprod" -> TExpProd(W, D, x)

(* Queries return a value and change nothing. *)
Queries == {"eq", "pair", "degree", "size", "iszero", "coeff", "show",
            "coeffL", "sizeL", "degreeL"}
Answer(e, x, s) ==
    CASE e.op = "eq"     -> x[1] = x[2]
      [] e.op = "pair"   -> TPair(x[1], x[2])
      \* the degree up to which coefficients are stored
      [] e.op = "degree" -> IF TDegree(x[1]) <= e.res /\ e.res <= TDepth(x[1]) THEN e.res ELSE TDegree(x[1])
      [] e.op = "size"   -> TNonZero(x[1])
      [] e.op = "iszero" -> TIsZero(x[1])
      [] e.op = "coeff"  -> x[1][e.key[1] + 1][e.key[2] + 1]
      [] e.op = "show"   -> e.res
      \* a Lie element: its coordinates are observed with the query (and are
      \* compared with the state of the machine like any observation)
      [] e.op = "degreeL" -> IF TDegree(x[1]) <= e.res /\ e.res <= TDepth(x[1]) THEN e.res ELSE TDegree(x[1])
      [] e.op = "sizeL"  -> Cardinality({k \in 1..Len(e.obs[1].v) : Num(e.obs[1].v[k]) # "0"})
      [] e.op = "coeffL" -> Num(e.obs[1].v[e.key[2] + 1])

Agree(dig, e, want) == IF dig > 0 /\ e.op \in {"pair", "coeff"} THEN RClose(e.res, want, dig)
                       ELSE IF e.op \in {"pair", "coeff", "coeffL"} THEN Num(e.res) = want
                       ELSE e.res = want

Observed(L, o) == IF o.l THEN LieToTensor(L, Vect(o.v)) ELSE Force(Tens(o.v))
(* The first difference between the machine's value a and the observed b. *)
SameShape(a, b) == Len(a) = Len(b) /\ \A d \in 1..Len(a) : Len(a[d]) = Len(b[d])
Differ(dig, u, v) == IF dig = 0 THEN u # v ELSE ~RClose(u, v, dig)
Diff(dig, h, a, b) ==
    IF ~SameShape(a, b) THEN "shape of register " \o ToString(h)
    ELSE IF a = b THEN ""
    ELSE LET off == {dk \in {<<d, k>> : d \in 1..Len(a), k \in 1..Len(a[Len(a)])} :
                        dk[2] <= Len(a[dk[1]]) /\ Differ(dig, a[dk[1]][dk[2]], b[dk[1]][dk[2]])}
         IN  IF off = {} THEN ""
             ELSE LET dk == CHOOSE x \in off : TRUE
                  IN  "register " \o ToString(h) \o ", word " \o ToString(Digits(Len(a[2]), dk[1]-1, dk[2]-1))
                      \o ": specified " \o a[dk[1]][dk[2]] \o ", observed " \o b[dk[1]][dk[2]]
                      \o " (" \o ToString(Cardinality(off)) \o " coefficients differ)"
RECURSIVE FirstDiff(_, _, _, _, _)
FirstDiff(dig, new, L, obs, j) ==
    IF j > Len(obs) THEN ""
    ELSE IF ~Canon(obs[j]) THEN "register " \o ToString(obs[j].h) \o ": a coefficient is not in canonical form"
    ELSE LET m == Diff(dig, obs[j].h, new[obs[j].h], Observed(L, obs[j]))
         IN  IF m # "" THEN m ELSE FirstDiff(dig, new, L, obs, j + 1)

Init == /\ prog \in 1..Len(Progs)
        /\ i = 1
        /\ regs = <<>>
        /\ bad = ""

Put(r, h, v) == IF h <= Len(r) THEN [r EXCEPT ![h] = v] ELSE Append(r, v)

Step ==
    LET p == Progs[prog]
        e == p.ev[i]
        L == LieTab(<<p.w, p.d>>)
        x == [j \in 1..Len(e.a) |-> regs[e.a[j]]]
        new == IF e.op \in Queries THEN regs
               ELSE Put(regs, e.r, Force(Result(L, p.w, p.d, e, x, e.s)))
        msg == LET m == FirstDiff(p.dig, new, L, e.obs, 1)
               IN  IF m # "" THEN m
                   ELSE IF e.op \in Queries /\ ~Agree(p.dig, e, Answer(e, x, e.s))
                   THEN "answer: specified " \o ToString(Answer(e, x, e.s)) \o ", observed " \o ToString(e.res)
                   ELSE ""
        \* rounded coefficients: go on from what was observed
        sync == [h \in 1..Len(new) |->
                    IF p.dig > 0 /\ \E j \in 1..Len(e.obs) : e.obs[j].h = h
                    THEN Observed(L, e.obs[CHOOSE j \in 1..Len(e.obs) : e.obs[j].h = h])
                    ELSE new[h]]
    IN  IF e.op \in {"CRASH", "EXC"}
        THEN regs' = regs /\ bad' = e.op \o ": " \o e.what
        ELSE regs' = Force(sync) /\ bad' = msg

Next == /\ bad = ""
        /\ i <= Len(Progs[prog].ev)
        /\ i' = i + 1
        /\ prog' = prog
        /\ Step

Spec == Init /\ [][Next]_vars
Conforms == bad = ""
=============================================================================
