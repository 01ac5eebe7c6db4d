------------------------------ MODULE FlpModel ------------------------------
(***************************************************************************)
(* The proof system itself, exhaustively over tiny fields: every input and *)
(* every string that could be offered as a proof.                          *)
(***************************************************************************)
EXTENDS JudgeFlp, IOUtils

Circ(n, f) == [name |-> n, field |-> f, length |-> 1, chunk |-> 1, max |-> <<1>>, poly |-> <<0>>]
Todo == IF IOEnv.DEPTH = "deep"
        THEN << Circ("Count", "F5"), Circ("Sum", "F5"), Circ("Sum", "F13") >>
        ELSE << Circ("Count", "F5"), Circ("Sum", "F5") >>
Elems(c) == {<<x>> : x \in 0..(B2Nat(CF(c).mod) - 1)}

VARIABLES c, meas, proof
vars == <<c, meas, proof>>
Init ==
  /\ c \in {Todo[i] : i \in 1..Len(Todo)}
  /\ meas \in [1..MeasLen(c) -> Elems(c)]
  /\ proof \in [1..ProofLen(c) -> Elems(c)]
Next == UNCHANGED vars
Spec == Init /\ [][Next]_vars

Points == {q \in Elems(c) : ~RootPoint(c, <<q>>)}
Accepting == {q \in Points : Verdict(c, meas, proof, <<q>>, <<>>) = 2}
\* The proof that an honest prover with the same wire seeds would send.
HonestProof == Prove(c, meas, SubSeq(proof, 1, ProveRandLen(c)), <<>>)

Complete == (ValidEnc(c, meas) /\ proof = HonestProof) => Accepting = Points
Sound == ~ValidEnc(c, meas) => Cardinality(Accepting) <= IdentityDegree(c)
\* Whatever is accepted at more points than the degree is an honest proof of a valid input.
Extract == Cardinality(Accepting) > IdentityDegree(c) => (ValidEnc(c, meas) /\ proof = HonestProof)
Refuses == \A q \in Elems(c) \ Points : Verdict(c, meas, proof, <<q>>, <<>>) = 0
=============================================================================
