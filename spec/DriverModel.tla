---------------------------- MODULE DriverModel -----------------------------
(***************************************************************************)
(* Every order in which the operations of a run can be called, and a       *)
(* failure of any of them.  Whatever the order, the run can be completed,  *)
(* a result exists only when every report has been verified by everyone    *)
(* and counted once by everyone, and a failure leaves no result.  The      *)
(* points of failure are printed; they are replayed into the code.         *)
(***************************************************************************)
EXTENDS Driver, IOUtils, Json, TLC

N == atoi(IOEnv.AGGS)
R == atoi(IOEnv.ROUNDS)
B == atoi(IOEnv.BATCH)
Kind == IOEnv.KIND

P == [kind |-> Kind, n |-> N, rounds |-> R, batch |-> B, nonce |-> 1, rand |-> 1,
      key |-> <<0>>, ctx |-> <<>>, param |-> <<7, 0, 0, 0>>]
VARIABLES S, aggs, result, failed
vars == <<S, aggs, result, failed>>

Base == [ctx |-> P.ctx, param |-> P.param, key |-> P.key]
AllCalls ==
  {[op |-> "shard", m |-> i, nonce |-> <<i>>, rand |-> <<i>>] @@ Base : i \in Reports(P)}
  \cup {[op |-> (IF Kind = "daf" THEN "prep" ELSE "init"), id |-> j, nonce |-> <<i>>, public |-> SPub(i), input |-> SIn(i, j)] @@ Base
        : i \in Reports(P), j \in Aggs(P)}
  \cup (IF Kind = "daf" THEN {} ELSE
        {[op |-> "combine", shares |-> [k \in 1..N |-> SSh(i, r, k - 1)]] @@ Base : i \in Reports(P), r \in 1..R}
        \cup {[op |-> "next", state |-> SSt(i, r, j), msg |-> SMsg(i, r)] @@ Base : i \in Reports(P), r \in 1..R, j \in Aggs(P)})
  \cup {[op |-> "aggupdate", agg |-> aggs[j], o |-> SOut(i, j)] @@ Base : i \in Reports(P), j \in Aggs(P)}
  \cup {[op |-> "unshard", aggs |-> [k \in 1..N |-> aggs[k - 1]], num |-> B] @@ Base}

Init == S = Start /\ aggs = [j \in Aggs(P) |-> <<>>] /\ result = FALSE /\ failed = FALSE
Do(c) ==
  /\ Name(c) \notin S.did
  /\ May(P, S, c) = Fine
  /\ S' = After(P, S, c)
  /\ aggs' = IF c.op = "aggupdate" THEN [aggs EXCEPT ![c.o[4]] = Append(@, c.o)] ELSE aggs
  /\ result' = (c.op = "unshard")
  /\ UNCHANGED failed
\* one register per call, so that every point of failure is printed once per worker
Slot(c) == LET n == Name(c) IN
  (CASE n[1] = "shard" -> 1 [] n[1] \in {"init", "prep"} -> 2 [] n[1] = "combine" -> 3 [] n[1] = "next" -> 4
     [] n[1] = "aggupdate" -> 5 [] OTHER -> 6) * 1000 + n[2] * 100 + n[3] * 10 + n[4]
ASSUME \A k \in 1000..6999 : TLCSet(k, 0)
Fail(c) ==
  /\ Name(c) \notin S.did
  /\ May(P, S, c) = Fine
  /\ failed' = TRUE
  /\ UNCHANGED <<S, aggs, result>>
  /\ IF TLCGet(Slot(c)) = 0
     THEN TLCSet(Slot(c), 1) /\ PrintT(<<"fault", ToJson(Name(c))>>)
     ELSE TRUE
Next == ~failed /\ ~result /\ \E c \in AllCalls : Do(c) \/ Fail(c)
Spec == Init /\ [][Next]_vars /\ WF_vars(\E c \in AllCalls : Do(c))

Counted == result => \A j \in Aggs(P) : Complete(P, S, aggs[j], j)
Dutiful == result => S.did = Duties(P)
NoResultAfterFailure == failed => ~result
\* no order of calls leads into a dead end
NoDeadEnd == (failed \/ result) \/ ENABLED (\E c \in AllCalls : Do(c))
Finishes == <>(failed \/ result)
=============================================================================
