---------------------------- MODULE JudgeVectors ----------------------------
(***************************************************************************)
(* Test vectors as records: what a generated vector must list.  The values *)
(* in a vector are judged as if they were results of calls (JudgeVdaf).    *)
(* An operation is <<name, report, aggregator, round>>, with -1 where the  *)
(* record has no such field.                                               *)
(***************************************************************************)
EXTENDS Judge

Op4(name, r, a, q) == <<name, r, a, q>>
VecOps(n, rounds, reports) ==
  {Op4("shard", r, -1, -1) : r \in 0..(reports - 1)}
  \cup {Op4("verify_init", r, a, -1) : r \in 0..(reports - 1), a \in 0..(n - 1)}
  \cup {Op4("verifier_shares_to_message", r, -1, q) : r \in 0..(reports - 1), q \in 0..(rounds - 1)}
  \cup {Op4("verify_next", r, a, q) : r \in 0..(reports - 1), a \in 0..(n - 1), q \in 1..rounds}
  \cup {Op4("aggregate", -1, a, -1) : a \in 0..(n - 1)}
  \cup {Op4("unshard", -1, -1, -1)}
\* What has to come before an operation.
Needs(n, rounds, reports, o) ==
  LET r == o[2]
      q == o[4]
  IN  CASE o[1] = "shard" -> {}
        [] o[1] = "verify_init" -> {Op4("shard", r, -1, -1)}
        [] o[1] = "verifier_shares_to_message" ->
             {IF q = 0 THEN Op4("verify_init", r, a, -1) ELSE Op4("verify_next", r, a, q) : a \in 0..(n - 1)}
        [] o[1] = "verify_next" -> {Op4("verifier_shares_to_message", r, -1, q - 1)}
        [] o[1] = "aggregate" -> {Op4("verify_next", k, o[3], rounds) : k \in 0..(reports - 1)}
        [] o[1] = "unshard" -> {Op4("aggregate", -1, a, -1) : a \in 0..(n - 1)}
VectorShape(ev) ==
  LET n == ev.n
      ops == ev.ops
      all == VecOps(n, ev.rounds, ev.reports)
      before(k) == {ops[i] : i \in 1..(k - 1)}
  IN  FirstBad(<<
        Check("an operation is listed that does not belong", \A i \in 1..Len(ops) : ops[i] \in all),
        Check("an operation is missing", \A o \in all : \E i \in 1..Len(ops) : ops[i] = o),
        Check("an operation is listed twice", Len(ops) = Cardinality(all)),
        Check("an operation is listed before what it needs",
              \A k \in 1..Len(ops) : Needs(n, ev.rounds, ev.reports, ops[k]) \subseteq before(k)),
        Check("an operation of an honest run is listed as failing", \A i \in 1..Len(ev.success) : ev.success[i]),
        Check("parameters of the record", ev.params = ev.want),
        Check("number of values in the record", ev.shape = [i \in 1..ev.reports |-> <<n, ev.rounds, n, ev.rounds, n>>]) >>)
=============================================================================
