---------------------------- MODULE ShamirModel -----------------------------
(***************************************************************************)
(* Over a small field, for every secret, every choice of coefficients and  *)
(* every sequence of distinct indices: enough shares recover the secret,   *)
(* sums of sharings are sharings of sums, and fewer shares than the        *)
(* threshold take each value once for each secret.                         *)
(***************************************************************************)
EXTENDS Shamir, IOUtils, FiniteSets, FiniteSetsExt

F == FieldOf(IOEnv.FIELD)
T == atoi(IOEnv.THRESHOLD)
N == atoi(IOEnv.SHARES)
P == B2Nat(F.mod)
Elems == {FInt(F, x) : x \in 0..(P - 1)}
Coeffs == [1..(T - 1) -> Elems]
VARIABLES secret, co, index, shares
vars == <<secret, co, index, shares>>
Init == secret \in Elems /\ co \in Coeffs /\ index = <<>> /\ shares = Sharing(F, secret, co, N)
Next == /\ \E j \in 0..(N - 1) : j \notin {index[k] : k \in 1..Len(index)} /\ index' = Append(index, j)
        /\ UNCHANGED <<secret, co, shares>>
Spec == Init /\ [][Next]_vars
Of(ix) == [k \in 1..Len(ix) |-> shares[ix[k] + 1]]
Sound == IsSharing(F, secret, T, shares)
Recovers == Len(index) >= T => Recover(F, index, Of(index)) = secret
\* sums of sharings are sharings of sums, whatever the other one is
Linear ==
  \A s2 \in Elems :
    LET other == Sharing(F, s2, co, N)
    IN  IsSharing(F, FAdd(F, secret, s2), T, [j \in 1..N |-> FAdd(F, shares[j], other[j])])
\* for every secret there is exactly one choice of coefficients with these shares
Hidden ==
  Len(index) = T - 1 =>
    \A s2 \in Elems :
      Cardinality({c2 \in Coeffs :
        LET sh == Sharing(F, s2, c2, N) IN \A k \in 1..Len(index) : sh[index[k] + 1] = Of(index)[k]}) = 1
=============================================================================
