----------------------------- MODULE PolyModel ------------------------------
(***************************************************************************)
(* Polynomials over a small field, every one of them of a given size: the  *)
(* transforms are inverse to each other, a polynomial and its values       *)
(* determine each other, products and sums act pointwise.                  *)
(***************************************************************************)
EXTENDS Poly, IOUtils

F == FieldOf(IOEnv.FIELD)
Size == atoi(IOEnv.SIZE)
P == B2Nat(F.mod)
Elems == {FInt(F, x) : x \in 0..(P - 1)}
VARIABLES p, q
vars == <<p, q>>
Init == p \in [1..Size -> Elems] /\ q \in [1..Size -> {FInt(F, x) : x \in 0..1}]
Next == UNCHANGED vars
Spec == Init /\ [][Next]_vars
Invertible ==
  /\ Transform(F, InverseTransform(F, p, Size), Size, FALSE) = p
  /\ InverseTransform(F, Transform(F, p, Size, FALSE), Size) = p
Values == \A x \in Elems :
  /\ VAt(F, PolyAdd(F, p, q), x) = FAdd(F, VAt(F, p, x), VAt(F, q, x))
  /\ VAt(F, PolyMul(F, p, q), x) = FMul(F, VAt(F, p, x), VAt(F, q, x))
  /\ LagEval(F, Transform(F, p, Size, FALSE), x) = VAt(F, p, x)
\* doubling gives the values at the even powers and the shifted transform at the odd ones
Double ==
  2 * Size <= 2 ^ F.log =>
    LET v == Transform(F, p, Size, FALSE)
        s == Transform(F, p, Size, TRUE)
        d == LagDouble(F, v)
    IN  \A i \in 1..Size : d[2 * i - 1] = v[i] /\ d[2 * i] = s[i]
Extend == LET v == SubSeq(Transform(F, p, Size, FALSE), 1, Len(p) - 1)
              e == LagExtend(F, v, Size)
          IN  /\ SubSeq(e, 1, Len(v)) = v
              /\ Size > 1 => CoeffsOf(F, e)[Size] = FZero(F)
Multiply == 2 * Size <= 2 ^ F.log =>
  LagMul(F, Transform(F, p, Size, FALSE), Transform(F, q, Size, FALSE)) = Transform(F, PolyMul(F, p, q), 2 * Size, FALSE)
=============================================================================
