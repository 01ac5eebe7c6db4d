----------------------------- MODULE MaskModel ------------------------------
(***************************************************************************)
(* Additive sharing with ideal masks over a small field: for every secret  *)
(* and every choice of the masks, the shares sum to the secret, and any    *)
(* shares but one are consistent with every secret, equally often.         *)
(***************************************************************************)
EXTENDS Additive, IOUtils

F == FieldOf(IOEnv.FIELD)
N == atoi(IOEnv.SHARES)
P == B2Nat(F.mod)
Elems == {FInt(F, x) : x \in 0..(P - 1)}
Masks == [1..(N - 1) -> Elems]
VARIABLES secret, masks, seen
vars == <<secret, masks, seen>>
Init == secret \in Elems /\ masks \in Masks /\ seen = {}
\* a curious party gets hold of one share after another
Next == /\ \E j \in 1..N : j \notin seen /\ seen' = seen \union {j}
        /\ UNCHANGED <<secret, masks>>
Spec == Init /\ [][Next]_vars
Shares == AddShares(F, secret, masks)
Complete == VSum(F, Shares) = secret
RECURSIVE Power(_, _)
Power(b, e) == IF e = 0 THEN 1 ELSE b * Power(b, e - 1)
Hidden ==
  Cardinality(seen) < N =>
    \A s2 \in Elems :
      Cardinality({m2 \in Masks : \A j \in seen : AddShares(F, s2, m2)[j] = Shares[j]}) = Power(P, N - 1 - Cardinality(seen))
=============================================================================
