------------------------------ MODULE JudgeFlp ------------------------------
(***************************************************************************)
(* Conformance of validity circuits, measurement encodings and the proof   *)
(* system.  T.Cs lists the circuits, ev.c is the index of the one used.    *)
(***************************************************************************)
EXTENDS Flp, Judge

\* Test points that a query must refuse: roots of unity of the wire domain.
Red(c) == IF EvalOutLen(c) > 1 THEN EvalOutLen(c) ELSE 0
RootPoint(c, qr) ==
  \E k \in 1..Len(Gadgets(c)) : FPow(CF(c), qr[Red(c) + k], Nat2B(WireLen(c, k))) = FOne(CF(c))
SumVecs(F, vs) == FoldLeft(LAMBDA a, v : VAdd(F, a, v), vs[1], Tail(vs))
\* 0 refused, 1 rejected, 2 accepted
Verdict(c, meas, proof, qr, jr) ==
  LET q == TLCEval(Query(c, meas, proof, qr, jr, 1))
  IN  IF ~q.ok THEN 0 ELSE IF Decide(c, q.val) THEN 2 ELSE 1
\* Degree of the polynomial identity that a test point probes.
IdentityDegree(c) == SumOver(Len(Gadgets(c)), LAMBDA k : GadgetPolyLen(c, k) - 1)

Summed(c, ms) ==
  LET n == OutputLen(c)
      add(a, m) == LET x == Contribution(c, m) IN TLCEval([i \in 1..n |-> BAdd(a[i], x[i])])
  IN  TLCEval([i \in 1..n |-> BNorm(FoldLeft(add, [j \in 1..n |-> <<>>], ms)[i])])

Declared(c) ==
  << MeasLen(c), OutputLen(c), JointRandLen(c), ProveRandLen(c), QueryRandLen(c), ProofLen(c), VerifierLen(c) >>

\* A run of the proof system by its driver, from the calls it made.
Vecs(qs, get(_)) == TLCEval([i \in 1..Len(qs) |-> get(qs[i])])
Drawn(q) == ToSet(q.qr) \cup ToSet(q.jr)
RunFlp(c, ev) ==
  LET F == CF(c)
      p == ev.proves[1]
      qs == ev.queries
      ms == Vecs(qs, LAMBDA q : q.meas)
      ps == Vecs(qs, LAMBDA q : q.proof)
  IN
  IF ~ev.out.ok THEN <<"no verdict", ev.out.err>>
  ELSE IF Len(ev.proves) # 1 \/ Len(qs) # ev.ns \/ Len(ev.decides) # 1 THEN <<"number of calls">>
  ELSE IF p.meas # ev.meas THEN <<"another measurement is proved">>
  ELSE IF Len(p.pr) # ProveRandLen(c) \/ Len(p.jr) # JointRandLen(c) \/ Len(qs[1].qr) # QueryRandLen(c) THEN <<"amount of randomness">>
  ELSE IF \E i \in 1..Len(qs) : qs[i].jr # p.jr THEN <<"prover and verifiers differ in the joint randomness">>
  ELSE IF \E i \in 1..Len(qs) : qs[i].qr # qs[1].qr THEN <<"verifiers differ in the query randomness">>
  ELSE IF \E i \in 1..Len(qs) : qs[i].ns # ev.ns THEN <<"number of shares">>
  ELSE IF SumVecs(F, ms) # ev.meas THEN <<"shares of another measurement">>
  ELSE IF SumVecs(F, ps) # p.out THEN <<"shares of another proof">>
  ELSE IF SumVecs(F, Vecs(qs, LAMBDA q : q.out)) # ev.decides[1].verifier THEN <<"the verifier decided is not the sum of its shares">>
  ELSE IF ev.out.val # ev.decides[1].out THEN <<"the verdict is not the decision">>
  ELSE IF Cardinality(ToSet(ms)) # ev.ns \/ Cardinality(ToSet(ps)) # ev.ns THEN <<"two equal shares">>
  ELSE IF ToSet(p.pr) \cap Drawn(qs[1]) # {} \/ ToSet(qs[1].qr) \cap ToSet(p.jr) # {} \/ Cardinality(ToSet(p.pr)) # Len(p.pr)
  THEN <<"randomness used twice">>
  ELSE Check("verdict", ev.out.val = ValidEnc(c, ev.meas))

FlpCall(T, ev) ==
  LET c == T.Cs[ev.c]
      F == CF(c)
  IN
  CASE ev.op = "lens" -> Same("declared lengths", ev.lens, Declared(c))
    \* outputs of the circuit on several vectors
    [] ev.op = "eval" ->
         Each(Len(ev.cases), LAMBDA i :
           LET x == ev.cases[i]
           IN  IF Len(x.meas) # MeasLen(c) \/ Len(x.jr) # JointRandLen(c)
               THEN Match("circuit on vectors of wrong length", x.out, Refused)
               ELSE Match("circuit output", x.out, Ok(EvalCircuit(c, x.meas, x.jr, x.ns))))
    \* one vector, all values of the joint randomness: does the circuit output vanish throughout?
    [] ev.op = "zero" ->
         Each(Len(ev.cases), LAMBDA i :
           LET x == ev.cases[i]
           IN  IF ~x.out.ok THEN <<"circuit refuses a vector", x.out.err>>
               ELSE IF x.out.val = ValidEnc(c, x.meas) THEN Fine
               ELSE IF x.out.val THEN <<"circuit accepts a vector that encodes nothing">>
               ELSE <<"circuit rejects an encoding">>)
    \* an honest proof, queried in shares and as a whole
    [] ev.op = "honest" ->
         IF ~ev.proof.ok THEN <<"prover fails", ev.proof.err>>
         ELSE IF ~ValidEnc(c, ev.meas) THEN <<"measurement is not encoded validly">>
         ELSE IF ev.proof.val # ProofLen(c) THEN <<"length of the proof">>
         ELSE IF RootPoint(c, ev.qr)
         THEN Check("query at a root of unity must be refused", ~ev.whole.ok /\ \A i \in 1..Len(ev.parts) : ~ev.parts[i].ok)
         ELSE IF ~ev.whole.ok THEN <<"query refused", ev.whole.err>>
         ELSE IF \E i \in 1..Len(ev.parts) : ~ev.parts[i].ok THEN <<"query of a share refused">>
         ELSE IF Len(ev.whole.val) # VerifierLen(c) \/ \E i \in 1..Len(ev.parts) : Len(ev.parts[i].val) # VerifierLen(c)
         THEN <<"length of the verifier">>
         ELSE IF SumVecs(F, [i \in 1..Len(ev.parts) |-> ev.parts[i].val]) # ev.whole.val THEN <<"verifier shares do not sum to the verifier">>
         ELSE Check("honest proof rejected", ev.dec.ok /\ ev.dec.val)
    \* any input and proof: the query is linear
    [] ev.op = "linear" ->
         IF RootPoint(c, ev.qr)
         THEN Check("query at a root of unity must be refused", ~ev.whole.ok /\ \A i \in 1..Len(ev.parts) : ~ev.parts[i].ok)
         ELSE IF ~ev.whole.ok \/ \E i \in 1..Len(ev.parts) : ~ev.parts[i].ok THEN <<"query refused">>
         ELSE Check("verifier shares do not sum to the verifier",
                    SumVecs(F, [i \in 1..Len(ev.parts) |-> ev.parts[i].val]) = ev.whole.val)
    \* any input and proof, decided at several query points
    [] ev.op = "verdicts" ->
         LET want == TLCEval([i \in 1..Len(ev.qrs) |-> Verdict(c, ev.meas, ev.proof, ev.qrs[i], ev.jr)])
             bads == {i \in 1..Len(ev.qrs) : want[i] # ev.out[i]}
         IN  IF bads = {} THEN Fine
             ELSE LET i == CHOOSE i \in bads : TRUE
                  IN  << CASE ev.out[i] = 2 -> "accepted what must not be"
                           [] ev.out[i] = 0 -> "refused what must be decided"
                           [] OTHER -> "rejected what must not be",
                         ev.how, want[i], ev.out[i] >>
    \* All test points, one gadget, output not reduced: a proof of something false passes at
    \* no more test points than the degree of the identity.
    [] ev.op = "sound" ->
         Check("too many test points accept", ev.accepted <= IdentityDegree(c))
    [] ev.op = "run" -> RunFlp(c, ev)
    [] ev.op = "decide" ->
         IF Len(ev.verifier) # VerifierLen(c) THEN Match("verifier of wrong length", ev.out, Refused)
         ELSE Match("decision", ev.out, Ok(Decide(c, ev.verifier)))
    \* measurements
    [] ev.op = "encode" ->
         Each(Len(ev.cases), LAMBDA i :
           LET x == ev.cases[i]
           IN  IF ~ValidMeas(c, x.m) THEN (IF x.out.ok THEN <<"encoded an impossible measurement">> ELSE Fine)
               ELSE IF ~x.out.ok THEN <<"refused a permitted measurement", x.out.err>>
               ELSE IF Len(x.out.val) # MeasLen(c) \/ ~ValidEnc(c, x.out.val) THEN <<"not an encoding">>
               ELSE LET want == Contribution(c, x.m)
                        as == TLCEval([j \in 1..Len(want) |-> FOfNat(F, want[j])])
                    IN  IF Truncate(c, x.out.val) # as THEN <<"encodes something else">>
                        ELSE Match("truncation", x.trunc, Ok(as)))
    [] ev.op = "trunc" -> Match("truncation", ev.out, Ok(Truncate(c, ev.meas)))
    [] ev.op = "decode" -> Match("decoded aggregate", ev.out, Ok(DecodeAgg(c, ev.agg)))
    \* a batch, encoded, truncated, summed and decoded
    [] ev.op = "batch" -> Match("aggregate of a batch", ev.out, Ok(Summed(c, ev.ms)))
    \* sharding a measurement with Prio3
    [] ev.op = "shard" ->
         IF ValidMeas(c, ev.m) THEN Check("refused to shard a permitted measurement", ev.ok)
         ELSE Check("sharded an impossible measurement", ~ev.ok)
=============================================================================
