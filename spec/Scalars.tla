------------------------------ MODULE Scalars ------------------------------
(***************************************************************************)
(* Scalars: a type and an exact value, which is a polynomial with rational *)
(* coefficients (a constant one for the number types).                     *)
(*   i1 i2 i4 i8   signed integers of so many bytes                        *)
(*   u1 u2 u4 u8   unsigned integers                                       *)
(*   h b f d       IEEE half, bfloat16, single and double precision        *)
(*   Q P           rational numbers, polynomials                           *)
(*   0             the scalar without a type, which is zero                *)
(***************************************************************************)
EXTENDS Poly

Signed == {"i1", "i2", "i4", "i8"}
Unsigned == {"u1", "u2", "u4", "u8"}
Ints == Signed \cup Unsigned
Floats == {"h", "b", "f", "d"}
Bytes(t) == CASE t \in {"i1", "u1"} -> 1 [] t \in {"i2", "u2", "h", "b"} -> 2 [] t \in {"i4", "u4", "f"} -> 4 [] OTHER -> 8
Digits(t) == CASE t = "h" -> 11 [] t = "b" -> 8 [] t = "f" -> 24 [] t = "d" -> 53
(* exponents well inside the range of normal numbers *)
Emax(t) == CASE t = "h" -> 14 [] t = "b" -> 100 [] t = "f" -> 100 [] t = "d" -> 900

IsConst(p) == DOMAIN p \subseteq {MUnit}
Num(p) == Coef(p, MUnit)

(* |x| = m 2^e with 2^(n-1) <= m < 2^n *)
RECURSIVE Log2(_, _)
Log2(x, e) == IF RLt(x, "1") THEN Log2(RMul(x, "2"), e - 1)
              ELSE IF RLe("2", x) THEN Log2(RMul(x, "1/2"), e + 1) ELSE e
Exponent(x) == Log2(RAbs(x), 0)
IsInt(x) == RFloor(x) = x
InRange(t, x) == /\ RLe(RAbs(x), RPow2(Emax(t))) /\ (x = "0" \/ RLe(RPow2(0 - Emax(t)), RAbs(x)))
(* the type can hold the value exactly *)
Fits(t, p) ==
    CASE t = "P" -> TRUE
      [] ~ IsConst(p) -> FALSE
      [] t = "Q" -> TRUE
      [] t = "0" -> p = PZero
      [] t \in Signed -> IsInt(Num(p)) /\ RLt(RAbs(Num(p)), RPow2(8 * Bytes(t) - 1))
      [] t \in Unsigned -> IsInt(Num(p)) /\ RLe("0", Num(p)) /\ RLt(Num(p), RPow2(8 * Bytes(t)))
      [] t \in Floats -> /\ InRange(t, Num(p))
                         /\ Num(p) # "0" => IsInt(RMul(Num(p), RPow2(Digits(t) - 1 - Exponent(Num(p)))))
(* the value of the type is the exact one, or the closest one for floats; *)
(* other roundings are not specified                                      *)
Rounded(t, p, obs) ==
    IF Fits(t, p) THEN obs = p
    ELSE IF t \in Floats /\ IsConst(p) /\ InRange(t, Num(p))
         THEN /\ IsConst(obs)
              /\ RLe(RAbs(RSub(Num(obs), Num(p))), RMul(RAbs(Num(p)), RPow2(0 - Digits(t))))
    ELSE TRUE
(* the types the result of an operation on two types may have *)
Promotions(l, r) ==
    CASE l = r -> {l}
      [] l = "0" -> {r}
      [] r = "0" -> {l}
      [] l = "P" \/ r = "P" -> {"P"}
      [] l = "Q" \/ r = "Q" -> {"Q"}
      [] l \in Ints /\ r \in Ints ->
            LET n == IF Bytes(l) < Bytes(r) THEN Bytes(r) ELSE Bytes(l)
            IN  IF (l \in Signed) = (r \in Signed) THEN {t \in {l, r} : Bytes(t) = n}
                ELSE {t \in Signed : Bytes(t) \in {n, 2 * n}}
      [] l \in Ints -> {r}
      [] l = "b" -> CASE r \in {"i1", "u1"} -> {"b"} [] r \in Ints /\ Bytes(r) < 8 -> {"f"} [] r \in Ints -> {"d"} [] OTHER -> {r}
      [] r \in Ints -> {l}
      [] OTHER -> IF Bytes(l) < Bytes(r) THEN {r} ELSE {l}
=============================================================================
