------------------------------ MODULE Kernels ------------------------------
(***************************************************************************)
(* What the kernels of roughpy_compute do to memory.                       *)
(*                                                                         *)
(* A view v is memory v.x of the levels 0..v.n of a tensor (or of a Lie    *)
(* element) together with the range v.lo..v.hi of degrees it shows.  The   *)
(* element denoted by a view has the coefficients of these degrees and     *)
(* zero in all others.  A kernel changes its first view only, there only   *)
(* the shown degrees, and the other memory not at all.                     *)
(***************************************************************************)
EXTENDS Tensor

Max2(a, b) == IF a > b THEN a ELSE b
ZeroLevel(l) == [k \in 1..Len(l) |-> "0"]

(* the element a view denotes, up to degree D *)
Elem(W, D, v) == Force([d \in 1..D+1 |->
    IF v.lo < d /\ d <= v.hi + 1 THEN v.x[d] ELSE [k \in 1..W^(d-1) |-> "0"]])
(* ... in the levels of its own memory (vector operations: any grading) *)
Own(v) == Force([d \in 1..v.n+1 |-> IF v.lo < d /\ d <= v.hi + 1 THEN v.x[d] ELSE ZeroLevel(v.x[d])])

(* the memory of v after the element t was written through the view *)
Write(v, t) == Force([d \in 1..v.n+1 |-> IF v.lo < d /\ d <= v.hi + 1 THEN t[d] ELSE v.x[d]])

Factor(k, c) == CASE k = "id"  -> "1"
                  [] k = "neg" -> "-1"
                  [] k = "mul" -> c
                  [] k = "rmul" -> c
                  [] k = "div" -> RDiv("1", c)

TReverse(a) == LET b == TAntipode(a)
               IN  Force([d \in 1..Len(b) |-> IF d % 2 = 1 THEN b[d] ELSE [k \in 1..Len(b[d]) |-> RNeg(b[d][k])]])

(* Adjoint of shuffle multiplication by p: <p sh x, s> = <x, TShufAdjoint>. *)
TShufAdjoint(p, s) ==
    LET W == Len(s[2])
        D == TDepth(s)
        Unit(d, k) == [e \in 1..D+1 |-> [j \in 1..W^(e-1) |-> IF e = d /\ j = k THEN "1" ELSE "0"]]
    IN  Force([d \in 1..D+1 |-> [k \in 1..W^(d-1) |-> TPair(s, TShuffle(p, Unit(d, k)))]])

(* The memory of the first view after a call; where the degrees of the     *)
(* argument do not reach (and hence nothing is said about the result) the  *)
(* kernel may write zero or leave the memory alone: Result yields a pair.  *)
Same(x) == <<x, x>>
Result(W, e) ==
    LET v == e.v
        o == v[1]
        D == Max2(1, Max2(o.n, Max2(v[Len(v)].n, v[Max2(1, Len(v) - 1)].n)))
        E(j) == Elem(W, D, v[j])
        f == Factor(e.k, e.c)
        g == Factor(e.k2, e.c2)
        \* degrees of the first view that those of view j cover
        In(d, j) == v[j].lo < d /\ d <= v[j].hi + 1
        Where(t, P(_)) == <<Write(o, Force([d \in 1..D+1 |-> IF P(d) \/ ~(d <= o.n + 1) THEN t[d] ELSE o.x[d]])), Write(o, t)>>
        OwnWhere(t, P(_)) == <<Write(o, Force([d \in 1..o.n+1 |-> IF P(d) THEN t[d] ELSE o.x[d]])), Write(o, t)>>
    IN  CASE e.op = "fma"   -> Same(Write(o, TAdd(E(1), TSmul(TMul(E(2), E(3)), f))))
          [] e.op = "imul"  -> Same(Write(o, TSmul(TMul(E(1), E(2)), f)))
          [] e.op = "anti"  -> Where(TAntipode(E(2)), LAMBDA d : In(d, 2))
          [] e.op = "rev"   -> Where(TReverse(E(2)), LAMBDA d : In(d, 2))
          [] e.op = "adjl"  -> Same(Write(o, TAdd(E(1), TAdjoint(E(2), E(3)))))
          [] e.op \in {"shuf", "shuf2"} -> Same(Write(o, TAdd(E(1), TSmul(TShuffle(E(2), E(3)), f))))
          [] e.op = "adjs"  -> Same(Write(o, TAdd(E(1), TShufAdjoint(E(2), E(3)))))
          [] e.op = "exp"   -> Same(Write(o, TExp(TWithConst(E(2), "0"))))
          [] e.op = "log"   -> Same(Write(o, TLog(E(2))))
          [] e.op = "fmexp" -> Same(Write(o, TMul(E(2), TExp(TWithConst(E(3), "0")))))
          [] e.op = "vadd"  -> OwnWhere(TAdd(TSmul(Own(v[2]), f), TSmul(Own(v[3]), g)), LAMBDA d : In(d, 2) \/ In(d, 3))
          [] e.op = "vinc"  -> Same(Write(o, TAdd(Own(o), TSmul(Own(v[2]), f))))
          [] e.op = "vims"  -> Same(Write(o, TSmul(Own(o), e.c)))
          [] e.op = "vsm"   -> OwnWhere(TSmul(Own(v[2]), e.c), LAMBDA d : In(d, 2))

(* out += f M arg; a matrix is the sequence of its rows *)
Apply(e) == LET f == Factor(e.k, e.c)
            IN  Force([i \in 1..Len(e.out) |-> RAdd(e.out[i], RMul(f, RDot(e.m[i], e.arg)))])
=============================================================================
