----------------------------- MODULE SchedModel -----------------------------
(***************************************************************************)
(* Schedules of aggregation: reports are added to partial aggregates, and  *)
(* partial aggregates are merged, in any order and grouping, until one is  *)
(* left that holds the whole batch.  Complete schedules are printed, to be *)
(* replayed into the code.                                                 *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json, IOUtils, SequencesExt

Reports == 1..atoi(IOEnv.REPORTS)
MaxInits == atoi(IOEnv.PARTS)
MaxMerges == atoi(IOEnv.MERGES)

\* parts[i]: the reports in the i-th partial aggregate ever made; live: those not merged yet.
VARIABLES parts, live, ops
vars == <<parts, live, ops>>
Did(o) == Cardinality({i \in 1..Len(ops) : ops[i].op = o})
Used == UNION {parts[i] : i \in live}

Init == parts = <<>> /\ live = {} /\ ops = <<>>
New ==
  /\ Did("init") < MaxInits
  /\ parts' = Append(parts, {})
  /\ live' = live \cup {Len(parts) + 1}
  /\ ops' = Append(ops, [op |-> "init", part |-> Len(parts) + 1, args |-> <<>>])
Update(i, r) ==
  /\ i \in live
  /\ r \notin Used
  /\ parts' = [parts EXCEPT ![i] = @ \cup {r}]
  /\ ops' = Append(ops, [op |-> "update", part |-> i, args |-> <<r>>])
  /\ UNCHANGED live
Merge(s) ==
  /\ Did("merge") < MaxMerges
  /\ parts' = Append(parts, UNION {parts[s[j]] : j \in 1..Len(s)})
  /\ live' = (live \ {s[j] : j \in 1..Len(s)}) \cup {Len(parts) + 1}
  /\ ops' = Append(ops, [op |-> "merge", part |-> Len(parts) + 1, args |-> s])
Done == Used = Reports /\ Cardinality(live) = 1
Next ==
  /\ ~Done
  /\ \/ New
     \/ \E i \in live, r \in Reports : Update(i, r)
     \/ \E s \in SetToAllKPermutations(live) : Merge(s)
Spec == Init /\ [][Next]_vars

\* Partial aggregates never share a report, so none is lost or counted twice.
Apart == \A i, j \in live : i # j => parts[i] \cap parts[j] = {}
Whole == Done => \A i \in live : parts[i] = Reports
Emit == Done => PrintT(<<"sched", ToJson(ops)>>)
=============================================================================
