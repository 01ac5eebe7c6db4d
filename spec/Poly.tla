-------------------------------- MODULE Poly --------------------------------
(***************************************************************************)
(* Polynomial arithmetic, by definition.  In the monomial basis a          *)
(* polynomial is its sequence of coefficients; in the Lagrange basis it is *)
(* its values at the first powers of a root of unity.                      *)
(***************************************************************************)
EXTENDS Flp

RECURSIVE Strip(_, _)
Strip(F, p) == IF p # <<>> /\ p[Len(p)] = FZero(F) THEN Strip(F, SubSeq(p, 1, Len(p) - 1)) ELSE p
At(F, p, i) == IF i \in 1..Len(p) THEN p[i] ELSE FZero(F)
PolyAdd(F, p, q) == TLCEval([i \in 1..MaxOf(Len(p), Len(q)) |-> FAdd(F, At(F, p, i), At(F, q, i))])
PolyMul(F, p, q) ==
  IF p = <<>> \/ q = <<>> THEN <<>>
  ELSE TLCEval([k \in 1..(Len(p) + Len(q) - 1) |->
         VDot(F, [i \in 1..Len(p) |-> p[i]], [i \in 1..Len(p) |-> At(F, q, k - i + 1)])])
\* Values at s*w^i, i < n, for w the n-th root of unity and s the 2n-th one or 1.
Transform(F, p, n, shifted) ==
  LET xs == VPowers(F, RootOf(F, n), n)
      s  == IF shifted THEN RootOf(F, 2 * n) ELSE FOne(F)
  IN  TLCEval([i \in 1..n |-> VAt(F, p, FMul(F, s, xs[i]))])
PadTo(F, p, n) == p \o VZeros(F, n - Len(p))
InverseTransform(F, p, n) == CoeffsOf(F, PadTo(F, p, n))
\* Value at x of the polynomial (of degree < n = Len(p)) given in the Lagrange basis.
LagEval(F, p, x) == VAt(F, CoeffsOf(F, p), x)
\* The polynomial of degree < Len(p) through the values p at the first powers of the n-th
\* root of unity, at all n powers.
LagExtend(F, p, n) ==
  LET xs == TLCEval(VPowers(F, RootOf(F, n), n))
      nodes == TLCEval(SubSeq(xs, 1, Len(p)))
  IN  TLCEval([i \in 1..n |-> IF i <= Len(p) THEN p[i] ELSE VInterp(F, nodes, p, xs[i])])
LagDouble(F, p) == Transform(F, CoeffsOf(F, p), 2 * Len(p), FALSE)
LagMul(F, p, q) ==
  LET a == LagDouble(F, p)
      b == LagDouble(F, q)
  IN  TLCEval([i \in 1..Len(a) |-> FMul(F, a[i], b[i])])
\* p interpolates the points and has the least possible number of coefficients bound.
Interpolates(F, xs, ys, p) == Len(p) <= Len(xs) /\ \A i \in 1..Len(xs) : VAt(F, p, xs[i]) = ys[i]
=============================================================================
