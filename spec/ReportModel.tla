---------------------------- MODULE ReportModel -----------------------------
(***************************************************************************)
(* The life of one Prio3 report over a small field, with an adversary who  *)
(* may shard any vector (valid or not) and alter one thing on the way: a   *)
(* byte of an input share, of the public share, of a verifier share, or of *)
(* the message.  The aggregators take their steps in any order.            *)
(***************************************************************************)
EXTENDS Vdaf, JudgeFlp, IOUtils

Circ(n, f, l, k, m) == [name |-> n, field |-> f, length |-> l, chunk |-> k, max |-> <<m>>, poly |-> <<0>>]
Inst(c, n, p) == [kind |-> "prio3", id |-> <<255, 255, 0, 1>>, shares |-> n, proofs |-> p, circuit |-> c]
V == CASE IOEnv.WHICH = "count2" -> Inst(Circ("Count", "F13", 1, 1, 1), 2, 1)
       [] IOEnv.WHICH = "count3" -> Inst(Circ("Count", "F13", 1, 1, 1), 3, 2)
       [] IOEnv.WHICH = "sum2" -> Inst(Circ("Sum", "F17", 1, 1, 2), 2, 1)
       [] IOEnv.WHICH = "hist2" -> Inst(Circ("Histogram", "F17", 2, 2, 1), 2, 1)
       [] IOEnv.WHICH = "hist3" -> Inst(Circ("Histogram", "F17", 1, 1, 1), 3, 2)
       [] IOEnv.WHICH = "vec2" -> Inst(Circ("SumVec", "F17", 2, 1, 1), 2, 2)
Seeds == atoi(IOEnv.SEEDS)
Values == IF IOEnv.VALUES = "all" THEN 0..(B2Nat(P3F(V).mod) - 1) ELSE 0..2
c == V.circuit
F == P3F(V)
N == V.shares
Aggs == 1..N
Key(s) == TLCEval([i \in 1..32 |-> (i * 5 + s * 41) % 256])
Nonce(s) == TLCEval([i \in 1..16 |-> (i * 3 + s) % 256])
Rand(s) == TLCEval([i \in 1..P3RandSize(V) |-> (i * i + 7 * s + i \div 9) % 256])
Ctx == <<99>>
Meas == [1..MeasLen(c) -> {FInt(F, x) : x \in Values}]

NoEdit == [at |-> "none", agg |-> 1, pos |-> 1, add |-> 0]
\* An edit adds to a byte; past the end it appends one.
Apply(e, at, agg, b) ==
  IF e.at # at \/ e.agg # agg THEN b
  ELSE IF e.pos > Len(b) THEN Append(b, e.add) ELSE [b EXCEPT ![e.pos] = (@ + e.add) % 256]
LeaderLen == (MeasLen(c) + ProofLen(c) * V.proofs) * F.size + (IF P3Joint(V) THEN 32 ELSE 0)
ShareLen == VerifierLen(c) * V.proofs * F.size + (IF P3Joint(V) THEN 32 ELSE 0)
\* positions of every element, and some of the others
Some(n) == {p \in 1..(n + 1) : p <= n - 30 \/ p > n - 1} \cup {1}
Edits == {NoEdit}
  \cup {[at |-> "input", agg |-> 1, pos |-> p, add |-> a] : p \in Some(LeaderLen), a \in {1, 2, 200}}
  \cup {[at |-> "input", agg |-> g, pos |-> p, add |-> 1] : g \in 2..N, p \in {1, 32, 33, 64, 65}}
  \cup {[at |-> "public", agg |-> g, pos |-> p, add |-> 1] : g \in Aggs, p \in {1, 33, 32 * N, 32 * N + 1}}
  \cup {[at |-> "share", agg |-> g, pos |-> p, add |-> a] : g \in Aggs, p \in Some(ShareLen), a \in {1, 200}}
  \cup {[at |-> "msg", agg |-> g, pos |-> p, add |-> 1] : g \in Aggs, p \in {1, 32, 33}}

VARIABLES meas, seed, edit, phase, report, steps, msg, outs
vars == <<meas, seed, edit, phase, report, steps, msg, outs>>
Waiting == [tag |-> "waiting"]
Init ==
  /\ meas \in Meas /\ seed \in 1..Seeds /\ edit \in Edits
  /\ phase = "sharded"
  /\ report = P3ShardVec(V, Ctx, meas, Nonce(seed), Rand(seed))
  /\ steps = [i \in Aggs |-> Waiting]
  /\ msg = <<>>
  /\ outs = [i \in Aggs |-> Waiting]
InputOf(i) == Apply(edit, "input", i, report.inputs[i])
PublicOf(i) == Apply(edit, "public", i, report.public)
Start(i) ==
  /\ phase = "sharded" /\ steps[i] = Waiting
  /\ LET r == VInit(V, Key(seed), Ctx, i - 1, <<>>, Nonce(seed), PublicOf(i), InputOf(i))
     IN  steps' = [steps EXCEPT ![i] = IF r.ok THEN [tag |-> "ready", state |-> r.val.state, share |-> r.val.share] ELSE [tag |-> "failed"]]
  /\ UNCHANGED <<meas, seed, edit, phase, report, msg, outs>>
Combine ==
  /\ phase = "sharded" /\ \A i \in Aggs : steps[i] # Waiting
  /\ IF \E i \in Aggs : steps[i].tag = "failed" THEN phase' = "rejected" /\ msg' = msg
     ELSE LET m == VCombine(V, Ctx, [level |-> 0, prefixes |-> <<>>], steps[1].state,
                            [i \in Aggs |-> Apply(edit, "share", i, steps[i].share)])
          IN  IF m.ok THEN phase' = "combined" /\ msg' = m.val ELSE phase' = "rejected" /\ msg' = msg
  /\ UNCHANGED <<meas, seed, edit, report, steps, outs>>
Finish(i) ==
  /\ phase = "combined" /\ outs[i] = Waiting
  /\ LET r == VNext(V, <<>>, steps[i].state, Apply(edit, "msg", i, msg))
     IN  outs' = [outs EXCEPT ![i] = IF r.ok THEN [tag |-> "out", out |-> r.val.out] ELSE [tag |-> "failed"]]
  /\ UNCHANGED <<meas, seed, edit, phase, report, steps, msg>>
Next == Combine \/ \E i \in Aggs : Start(i) \/ Finish(i)
Spec == Init /\ [][Next]_vars

\* Shares as the aggregators hold them.
Held(i) == P3DecInput(V, i - 1, InputOf(i))
MeasOf(i) == IF i = 1 THEN Held(1).val.meas ELSE P3HelperMeas(V, Ctx, i - 1, Held(i).val.seed)
ProofsOf(i) == IF i = 1 THEN Held(1).val.proofs ELSE P3HelperProofs(V, Ctx, i - 1, Held(i).val.seed)
Sum(n, f(_)) == FoldLeft(LAMBDA a, i : TLCEval(VAdd(F, a, f(i))), VZeros(F, n), [i \in Aggs |-> i])
Whole == Sum(MeasLen(c), MeasOf)
WholeProofs == Sum(ProofLen(c) * V.proofs, ProofsOf)
Query1(k) == PartOf(P3QueryRands(V, Ctx, Key(seed), Nonce(seed)), k, QueryRandLen(c))
Joint(i, k) == IF P3Joint(V) THEN PartOf(P3JointRands(V, Ctx, steps[i].state.seed), k, JointRandLen(c)) ELSE <<>>
AllOut == \A i \in Aggs : outs[i].tag = "out"
Roots == \E k \in 1..V.proofs : RootPoint(c, Query1(k))
\* An honest report is never rejected (unless the challenge is one no proof can be tested at).
Complete ==
  (edit.at = "none" /\ ValidEnc(c, meas) /\ ~Roots) =>
    phase # "rejected" /\ \A i \in Aggs : outs[i].tag # "failed"
\* Output shares of an accepted report add up to its truncated measurement.
Outputs == AllOut => Sum(OutputLen(c), LAMBDA i : outs[i].out) = Truncate(c, Whole)
\* Acceptance means that every proof passes for the whole report, with the same joint randomness everywhere.
Accepts ==
  (AllOut /\ edit.at # "share") =>
    /\ \A i \in Aggs : steps[i].state.seed = steps[1].state.seed
    /\ \A k \in 1..V.proofs : Verdict(c, Whole, PartOf(WholeProofs, k, ProofLen(c)), Query1(k), Joint(1, k)) = 2
\* ... and conversely.
Rejects ==
  (phase = "rejected" /\ edit.at \in {"none", "input"} /\ \A i \in Aggs : steps[i].tag = "ready") =>
    \/ \E k \in 1..V.proofs : Verdict(c, Whole, PartOf(WholeProofs, k, ProofLen(c)), Query1(k), Joint(1, k)) # 2
    \/ \E i \in Aggs : steps[i].state.seed # steps[1].state.seed
\* Nothing altered in the parts or in the message survives.
Binding ==
  (P3Joint(V) /\ AllOut) =>
    /\ edit.at # "msg"
    /\ edit.at = "public" => edit.pos \in (32 * edit.agg - 31)..(32 * edit.agg)
\* Canonical encodings only.
Strict == \A i \in Aggs : steps[i].tag = "ready" => Held(i).ok
=============================================================================
