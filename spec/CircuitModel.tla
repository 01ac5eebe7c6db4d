---------------------------- MODULE CircuitModel ----------------------------
(***************************************************************************)
(* Validity circuits, exhaustively over tiny fields: what a circuit lets   *)
(* pass for all joint randomness is exactly what ValidEnc says, and its    *)
(* evaluation may be split in shares.                                      *)
(***************************************************************************)
EXTENDS JudgeFlp, IOUtils

Circ(n, f, l, k, m) == [name |-> n, field |-> f, length |-> l, chunk |-> k, max |-> <<m>>, poly |-> <<0>>]
Quick == << Circ("Count", "F5", 1, 1, 1), Circ("Count", "F17", 1, 1, 1), Circ("Sum", "F5", 1, 1, 1), Circ("Sum", "F5", 1, 1, 2), Circ("Sum", "F13", 1, 1, 3),
            Circ("SumVec", "F5", 2, 1, 1), Circ("SumVec", "F5", 1, 2, 3), Circ("SumVec", "F5", 2, 3, 1), Circ("SumVec", "F13", 2, 2, 1),
            Circ("Histogram", "F5", 1, 1, 1), Circ("Histogram", "F5", 2, 1, 1), Circ("Histogram", "F5", 3, 2, 1), Circ("Histogram", "F5", 3, 4, 1), Circ("Histogram", "F13", 2, 2, 1),
            Circ("Multihot", "F5", 1, 1, 1), Circ("Multihot", "F5", 2, 2, 1), Circ("Multihot", "F5", 2, 3, 2), Circ("Multihot", "F5", 2, 4, 1) >>
Deep == Quick \o << Circ("Sum", "F5", 1, 1, 4), Circ("Sum", "F13", 1, 1, 5), Circ("SumVec", "F5", 3, 2, 1), Circ("SumVec", "F5", 2, 4, 3),
                    Circ("Histogram", "F5", 4, 3, 1), Circ("Histogram", "F13", 3, 3, 1), Circ("Multihot", "F5", 3, 4, 1), Circ("Multihot", "F5", 3, 5, 3), Circ("Multihot", "F13", 2, 3, 1) >>
Todo == IF IOEnv.DEPTH = "deep" THEN Deep ELSE Quick
Elems(c) == {<<x>> : x \in 0..(B2Nat(CF(c).mod) - 1)}

VARIABLES c, meas
vars == <<c, meas>>
Init ==
  /\ c \in {Todo[i] : i \in 1..Len(Todo)}
  /\ meas \in [1..MeasLen(c) -> Elems(c)]
Next == UNCHANGED vars
Spec == Init /\ [][Next]_vars

Rands == [1..JointRandLen(c) -> Elems(c)]
Vanishes(jr) == LET out == EvalCircuit(c, meas, jr, 1) IN \A i \in 1..Len(out) : out[i] = FZero(CF(c))
Exact == ValidEnc(c, meas) <=> \A jr \in Rands : Vanishes(jr)
Shape == LET jr == [i \in 1..JointRandLen(c) |-> FOne(CF(c))] IN Len(EvalCircuit(c, meas, jr, 1)) = EvalOutLen(c)
\* Wire values and outputs of shares sum to those of the whole, gadget outputs being shared.
Fixed(n, x) == TLCEval([i \in 1..n |-> FInt(CF(c), (x + 3 * i) % 5)])
Splits ==
  LET F   == CF(c)
      jr  == Fixed(JointRandLen(c), 2)
      a   == Fixed(Len(meas), 1)
      b   == VSub(F, meas, a)
      n   == Calls(c)[1]
      oa  == Fixed(n, 3)
      ob  == Fixed(n, 4)
      sum == CircuitOut(c, meas, jr, 1, <<VAdd(F, oa, ob)>>)
      ia  == GadgetIn(c, 1, a, jr, 2, <<>>)
      ib  == GadgetIn(c, 1, b, jr, 2, <<>>)
      iw  == GadgetIn(c, 1, meas, jr, 1, <<>>)
  IN  /\ VAdd(F, CircuitOut(c, a, jr, 2, <<oa>>), CircuitOut(c, b, jr, 2, <<ob>>)) = sum
      /\ \A k \in 1..n : VAdd(F, ia[k], ib[k]) = iw[k]
=============================================================================
