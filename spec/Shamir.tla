------------------------------- MODULE Shamir -------------------------------
(***************************************************************************)
(* Threshold secret sharing: the shares of a secret are the values at 1,   *)
(* 2, ..., n of a polynomial of degree below the threshold whose value at  *)
(* 0 is the secret.  Share number j (from 0) belongs to the point j + 1.   *)
(***************************************************************************)
EXTENDS Judge, SequencesExt

Pt(F, j) == FInt(F, j + 1)
\* Shares of element s with the further coefficients co.
Sharing(F, s, co, n) == TLCEval([j \in 1..n |-> VAt(F, <<s>> \o co, Pt(F, j - 1))])
\* The value at 0 of the polynomial of least degree through shares at the given indices.
Recover(F, index, shares) ==
  VInterp(F, [k \in 1..Len(index) |-> Pt(F, index[k])], shares, FZero(F))
\* Is this a sharing of s with threshold t?
IsSharing(F, s, t, shares) ==
  LET n == Len(shares)
      xs == TLCEval(<<FZero(F)>> \o [k \in 1..(t - 1) |-> Pt(F, k - 1)])
      ys == TLCEval(<<s>> \o SubSeq(shares, 1, t - 1))
  IN  \A j \in t..n : VInterp(F, xs, ys, Pt(F, j - 1)) = shares[j]
\* Does a smaller threshold already determine the secret?
Degenerate(F, s, t, shares) == t > 1 /\ IsSharing(F, s, t - 1, shares)
=============================================================================
