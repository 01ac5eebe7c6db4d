------------------------------ MODULE JudgeRun ------------------------------
(***************************************************************************)
(* Conformance of whole executions: who obtains an output share, and what  *)
(* a batch aggregates to.                                                  *)
(***************************************************************************)
EXTENDS Scenario, Judge

RunScenario(T, ev) ==
  LET want == TLCEval(Outcome(T.Vs, ev.sc))
      n == Len(want)
      wrongly == {i \in 1..n : ev.out[i] /\ ~want[i]}
      missing == {i \in 1..n : ~ev.out[i] /\ want[i]}
  IN  IF Len(ev.out) # n THEN <<"wrong number of outcomes">>
      ELSE IF wrongly # {} THEN <<"an output share results from", ev.what, CHOOSE i \in wrongly : TRUE>>
      ELSE IF missing # {} THEN <<"no output share in spite of", ev.what, CHOOSE i \in missing : TRUE>>
      ELSE Fine

\* Joint randomness: an aggregator's part, from its input share; the seed, from all parts.
JointCall(T, ev) ==
  LET V == T.Vs[ev.v] IN
  CASE ev.op = "part" ->
         LET in == TLCEval(P3DecInput(V, ev.id, ev.input))
             ms == IF ev.id = 0 THEN in.val.meas ELSE TLCEval(P3HelperMeas(V, ev.ctx, ev.id, in.val.seed))
         IN  IF ~in.ok THEN <<"input share is no encoding">>
             ELSE Match("joint randomness part", ev.out, Ok(P3JointPart(V, ev.ctx, ev.id, in.val.blind, ms, ev.nonce)))
    [] ev.op = "seed" -> Match("joint randomness seed", ev.out, Ok(P3JointSeed(V, ev.ctx, ev.parts)))

\* An honest batch: every report is accepted by everyone and the result is the plain
\* aggregate of the measurements.
IdealRun(T, ev) ==
  LET V == T.Vs[ev.v]
  IN  FirstBad(<<
        Check("an honest report is rejected", \A i \in 1..Len(ev.accepted) : ev.accepted[i]),
        Check("measurements of the batch are not all there", Len(ev.accepted) = Len(ev.ms)),
        IF ~ev.result.ok THEN <<"no aggregate result", ev.result.err>> ELSE Fine,
        IF ev.result.ok THEN Same("aggregate result", ev.result.val, TLCEval(VIdeal(V, ev.param, ev.ms))) ELSE Fine >>)
=============================================================================
