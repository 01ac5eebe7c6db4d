----------------------------- MODULE CodecModel -----------------------------
(***************************************************************************)
(* Encodings: of all byte strings over a small alphabet and up to a given  *)
(* length, those that decode are exactly the encodings, and they encode to *)
(* themselves again.                                                       *)
(***************************************************************************)
EXTENDS PingPong, IOUtils

Which == IOEnv.WHICH
Alphabet == CASE Which = "frame" -> {0, 1, 2, 3}
              [] Which = "param" -> {0, 1, 64, 128, 192}
              [] OTHER -> {0, 4, 5, 255}
Most == atoi(IOEnv.LENGTH)
Circ(n, f, l, k, m) == [name |-> n, field |-> f, length |-> l, chunk |-> k, max |-> <<m>>, poly |-> <<0>>]
V == IF Which = "param" THEN [kind |-> "poplar1", id |-> <<0, 0, 0, 6>>, bits |-> 8]
     ELSE [kind |-> "prio3", id |-> <<0, 0, 0, 1>>, shares |-> 2, proofs |-> 1, circuit |-> Circ("Count", "F5", 1, 1, 1)]

VARIABLE b
Init == b = <<>>
Next == Len(b) < Most /\ \E x \in Alphabet : b' = Append(b, x)
Spec == Init /\ [][Next]_b

Elems(s) == \A i \in 1..Len(s) : s[i] < 5
Frames ==
  Which = "frame" =>
    LET d == PPDecode(b) IN
    /\ d.ok => /\ PPEncode(d.val.type, d.val.items) = b
               /\ d.val.type \in 0..2 /\ Len(d.val.items) = (IF d.val.type = 1 THEN 2 ELSE 1)
    \* what is an encoding of something decodes
    /\ (Len(b) >= 5 /\ b[1] \in {0, 2} /\ OfBE(SubSeq(b, 2, 5)) = Len(b) - 5) => d.ok /\ d.val.items = <<Drop(b, 5)>>
    /\ \A t \in 0..2 : PPDecode(PPEncode(t, IF t = 1 THEN <<b, Take(b, Len(b) \div 2)>> ELSE <<b>>))
                         = Ok([type |-> t, items |-> IF t = 1 THEN <<b, Take(b, Len(b) \div 2)>> ELSE <<b>>])
Params ==
  Which = "param" =>
    LET s == IF Len(b) > 0 THEN BE((b[1] % 8), 2) \o BE(Len(b) - 1, 4) \o Tail(b) ELSE b
        d == PopDecParam(V, s)
        e == PopDecParam(V, b)
    IN  /\ d.ok => PopEncParam(V, d.val) = Ok(s)
        /\ e.ok => PopEncParam(V, e.val) = Ok(b)
        /\ Len(b) > 0 => (d.ok <=> \A i \in 2..Len(b) : b[i] % (2 ^ (7 - (b[1] % 8))) = 0)
Shares ==
  Which = "shares" =>
    LET dec(d, n) == d.ok <=> (Len(b) = n /\ Elems(b))
        i == P3DecInput(V, 0, b)
        s == P3DecShare(V, b)
    IN  /\ dec(i, MeasLen(V.circuit) + ProofLen(V.circuit))
        /\ dec(s, VerifierLen(V.circuit))
        /\ dec(P3DecOut(V, b), 1)
        /\ P3DecPublic(V, b).ok <=> b = <<>>
        /\ P3DecMessage(V, b).ok <=> b = <<>>
        /\ i.ok => EncVec(i.val.meas) \o EncVec(i.val.proofs) = b
        /\ s.ok => EncVec(s.val.verifiers) = b
=============================================================================
