--------------------------- MODULE InterleaveModel --------------------------
(***************************************************************************)
(* Several reports are processed at once by the same instances.  Each has  *)
(* a number of phases, which are carried out in order; in between, a phase *)
(* already done may be carried out again, and calls may be made that fail. *)
(* Whatever the schedule, a phase has one result.  Complete schedules are  *)
(* printed, to be replayed into the code.                                  *)
(***************************************************************************)
EXTENDS Naturals, Sequences, TLC, Json, IOUtils

Reports == 1..atoi(IOEnv.REPORTS)
Phases == atoi(IOEnv.PHASES)
Repeats == atoi(IOEnv.REPEATS)
Failures == atoi(IOEnv.FAILURES)

VARIABLES pos, again, failed, known, sched
vars == <<pos, again, failed, known, sched>>

\* The result of a phase: a function of the report and the phase alone.
Value(r, k) == <<r, k>>
Do(r, k, kind) ==
  /\ known' = known \cup {[call |-> <<r, k>>, result |-> Value(r, k)]}
  /\ sched' = Append(sched, <<r, kind, k>>)

Init == pos = [r \in Reports |-> 0] /\ again = 0 /\ failed = 0 /\ known = {} /\ sched = <<>>
Step(r) ==
  /\ pos[r] < Phases
  /\ pos' = [pos EXCEPT ![r] = @ + 1]
  /\ Do(r, pos[r] + 1, "step")
  /\ UNCHANGED <<again, failed>>
Again(r, k) ==
  /\ again < Repeats
  /\ k <= pos[r]
  /\ again' = again + 1
  /\ Do(r, k, "again")
  /\ UNCHANGED <<pos, failed>>
Fail(r) ==
  /\ failed < Failures
  /\ failed' = failed + 1
  /\ sched' = Append(sched, <<r, "fail", 0>>)
  /\ UNCHANGED <<pos, again, known>>
Done == \A r \in Reports : pos[r] = Phases
Next == ~Done /\ \E r \in Reports : Step(r) \/ Fail(r) \/ \E k \in 1..Phases : Again(r, k)
Spec == Init /\ [][Next]_vars

\* Results never disagree, and never depend on how the calls were interleaved.
Functional == \A a, b \in known : a.call = b.call => a.result = b.result
Emit == Done => PrintT(<<"sched", ToJson(sched)>>)
=============================================================================
