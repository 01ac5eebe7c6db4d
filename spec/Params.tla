------------------------------- MODULE Params -------------------------------
(***************************************************************************)
(* Permitted parameters, and the sizes that they declare.  Parameters are  *)
(* integers of any size and sign (naturals with a leading -1 if negative). *)
(***************************************************************************)
EXTENDS Vdaf

Pos(x) == ~IsNeg(x) /\ BNorm(x) # <<>>
InRange(x, lo, hi) == ~IsNeg(x) /\ NatLe(Nat2B(lo), x) /\ NatLe(x, Nat2B(hi))
\* Sums of weighted bits must not wrap.
BoundFits(F, mx) == Pos(mx) /\ BLess(Pow2B(BBits(mx)), F.mod)

\* c is a circuit whose length and chunk are such integers, too
CircuitPermitted(c) ==
  LET F == CF(c) IN
  CASE c.name = "Count" -> TRUE
    [] c.name = "Sum" -> BoundFits(F, c.max)
    [] c.name = "SumVec" -> Pos(c.length) /\ Pos(c.chunk) /\ BoundFits(F, c.max)
    [] c.name = "Histogram" -> Pos(c.length) /\ Pos(c.chunk)
    [] c.name = "Multihot" -> /\ Pos(c.length) /\ Pos(c.chunk) /\ Pos(c.max)
                              /\ NatLe(c.max, c.length)
                              /\ BLess(c.length, F.mod)
Prio3Permitted(shares, proofs) == InRange(shares, 2, 255) /\ InRange(proofs, 1, 255)
IdpfPermitted(vl, bits) == Pos(vl) /\ Pos(bits)
PoplarPermitted(bits) == Pos(bits)

\* Small enough to compute with TLC's integers.
Handy(c) == BLess(c.length, Pow2B(17)) /\ BLess(c.chunk, Pow2B(17))
Handed(c) == [c EXCEPT !.length = B2Nat(c.length), !.chunk = B2Nat(c.chunk)]
BigMeasLen(c) ==
  CASE c.name = "Histogram" -> c.length
    [] c.name = "SumVec" -> BMul(c.length, Nat2B(BBits(c.max)))
    [] c.name = "Multihot" -> BAdd(c.length, Nat2B(BBits(c.max)))

\* The number of gadget inputs, and the degree, of gadgets built from a polynomial.
RECURSIVE Stripped(_)
Stripped(p) == IF Len(p) > 1 /\ p[Len(p)] = 0 THEN Stripped(Take(p, Len(p) - 1)) ELSE p
=============================================================================
