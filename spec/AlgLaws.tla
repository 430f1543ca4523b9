------------------------------- MODULE AlgLaws -------------------------------
(***************************************************************************)
(* The laws of the tensor algebra, the shuffle algebra and the free Lie    *)
(* algebra as modules Tensor and Hall define them, for all triples of a    *)
(* set of elements (width 2, depth 3): the identities the properties name  *)
(* (P13 to P16) hold of the specification that real executions are         *)
(* compared with.                                                          *)
(***************************************************************************)
EXTENDS Hall, IOUtils

W == 2
Dep == 3
ASSUME TLCSet(1, LieAlg(W, Dep))
L == TLCGet(1)

Letter(i) == TLetter(W, Dep, i)
Ten(c, a, b, s) == TAdd(TScalar(W, Dep, c), TAdd(TSmul(Letter(1), a), TAdd(TSmul(Letter(2), b), s)))
Word2(i, j) == TMul(Letter(i), Letter(j))
Tens == {Ten(c, a, "1", s) : c \in {"0", "1", "-2"}, a \in {"0", "3/2"},
                             s \in {TZero(W, Dep), Word2(1, 2), TAdd(TNeg(Word2(2, 2)), TMul(Letter(2), Word2(1, 1)))}}
Few == {TZero(W, Dep), TOne(W, Dep), Ten("1/2", "0", "-1", TMul(Word2(2, 1), Letter(1))), Ten("0", "1", "2", Word2(1, 1))}
Lies == {LieToTensor(L, c) : c \in {<<"0", "0", "0", "0", "0">>, <<"1", "0", "0", "0", "0">>, <<"1", "-2", "0", "1/3", "0">>,
                                    <<"0", "1", "1", "0", "0">>, <<"2", "3", "-1/2", "1", "5">>, <<"0", "0", "1", "0", "-1">>}}

VARIABLES a, b, c, x, y, z, phase
vars == <<a, b, c, x, y, z, phase>>
None == TZero(W, Dep)
Tens0 == {t \in Tens : IOEnv.FULL = "1" \/ t[1][1] # "1"}
Init == /\ b = None /\ c = None /\ y = None /\ z = None
        /\ \/ a \in Tens0 /\ x = None /\ phase = "ten"
           \/ a = None /\ x \in Lies /\ phase = "lie"
Next == /\ phase' = "done"
        /\ UNCHANGED <<a, x>>
        /\ \/ phase = "ten" /\ b' \in Tens0 /\ c' \in Few /\ UNCHANGED <<y, z>>
           \/ phase = "lie" /\ y' \in Lies /\ z' \in Lies /\ UNCHANGED <<b, c>>
Spec == Init /\ [][Next]_vars

One == TOne(W, Dep)
Zero == TZero(W, Dep)
Nil(t) == TWithConst(t, "0")                  \* without constant term

(* P13 *)
Algebra == LET ab == TMul(a, b)
           IN  /\ TMul(ab, c) = TMul(a, TMul(b, c))
               /\ TMul(TAdd(a, b), c) = TAdd(TMul(a, c), TMul(b, c))
               /\ TMul(c, TAdd(a, b)) = TAdd(TMul(c, a), TMul(c, b))
               /\ TMul(a, One) = a /\ TMul(One, a) = a /\ TMul(a, Zero) = Zero
               /\ TTruncate(ab, 2) = TMul(TTruncate(a, 2), TTruncate(b, 2))
               /\ TMul(TSmul(a, "3"), b) = TSmul(ab, "3")
(* P14 *)
Shuffles == LET ab == TShuffle(a, b)
            IN  /\ ab = TShuffle(b, a)
                /\ TShuffle(ab, c) = TShuffle(a, TShuffle(b, c))
                /\ TShuffle(a, One) = a
                \* the half shuffles make up the shuffle, and are a Zinbiel algebra
                /\ TAdd(THalfShuffle(Nil(a), Nil(b)), THalfShuffle(Nil(b), Nil(a))) = TShuffle(Nil(a), Nil(b))
                /\ THalfShuffle(THalfShuffle(Nil(a), Nil(b)), Nil(c)) = THalfShuffle(Nil(a), TShuffle(Nil(b), Nil(c)))
(* transposition, for words that do not reach beyond the depth *)
Adjoints == /\ TPair(TMul(a, b), c) = TPair(b, TAdjoint(a, c))
            /\ TAdjoint(TMul(a, b), c) = TAdjoint(b, TAdjoint(a, c))
            /\ TAdjoint(One, c) = c
(* P15 *)
Series == LET n == Nil(a)
              e == TExp(n)
          IN  /\ TLog(e) = n
              /\ TExp(TLog(TWithConst(a, "1"))) = TWithConst(a, "1")
              /\ TMul(e, TExp(TNeg(n))) = One
              /\ TMul(e, e) = TExp(TSmul(n, "2"))
              /\ TAntipode(TMul(a, b)) = TMul(TAntipode(b), TAntipode(a))
              /\ TAntipode(TAntipode(a)) = a
GroupLike == LET g == TExp(x)
             IN  /\ TIsGroupLike(g)
                 /\ TIsGroupLike(TMul(g, TExp(y)))
                 /\ TMul(g, TAntipode(g)) = One
                 /\ TAntipode(g) = TExp(TNeg(x))
(* P16 *)
Lie == /\ TBracket(x, y) = TNeg(TBracket(y, x))
       /\ TAdd(TBracket(x, TBracket(y, z)), TAdd(TBracket(y, TBracket(z, x)), TBracket(z, TBracket(x, y)))) = Zero
       /\ TAntipode(TBracket(x, y)) = TNeg(TBracket(x, y))
       /\ TBracket(x, TAdd(y, z)) = TAdd(TBracket(x, y), TBracket(x, z))
Cbh == LET xy == TCbh(W, Dep, <<x, y>>)
       IN  /\ TCbh(W, Dep, <<xy, z>>) = TCbh(W, Dep, <<x, y, z>>)
           /\ TCbh(W, Dep, <<x, TCbh(W, Dep, <<y, z>>)>>) = TCbh(W, Dep, <<x, y, z>>)
           /\ TCbh(W, Dep, <<x, TNeg(x)>>) = Zero
           /\ TCbh(W, Dep, <<x, Zero>>) = x /\ TCbh(W, Dep, <<x>>) = x /\ TCbh(W, Dep, <<>>) = Zero
           \* the series to degree three
           /\ xy = TAdd(TAdd(x, y), TAdd(TSmul(TBracket(x, y), "1/2"),
                       TAdd(TSmul(TBracket(x, TBracket(x, y)), "1/12"), TSmul(TBracket(y, TBracket(y, x)), "1/12"))))
=============================================================================
