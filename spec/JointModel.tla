----------------------------- MODULE JointModel -----------------------------
(***************************************************************************)
(* Joint randomness, with hashes as terms: a part is derived from a blind, *)
(* a share, a nonce and a context; the seed from all parts.  An adversary  *)
(* gives each aggregator any share, blind, nonce, context and parts of the *)
(* others, and each aggregator any message it can form.                    *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC, IOUtils

N == atoi(IOEnv.AGGS)
Aggs == 1..N
Val == 0..1
\* which of the inputs vary in this run: a subset of {"share", "blind", "nonce", "ctx"}
Vary(what) == IF IOEnv.VARY = what \/ IOEnv.VARY = "all" THEN Val ELSE {0}
Part(i, blind, share, nonce, ctx) == <<"part", i, blind, share, nonce, ctx>>
Seed(ctx, parts) == <<"seed", ctx, parts>>
Inputs == [blind : Vary("blind"), share : Vary("share"), nonce : Vary("nonce"), ctx : Vary("ctx")]
PartOf(i, x) == Part(i, x.blind, x.share, x.nonce, x.ctx)
Junk == [blind |-> 2, share |-> 2, nonce |-> 2, ctx |-> 2]

VARIABLES held, hints, sent, combiner, msg, done
vars == <<held, hints, sent, combiner, msg, done>>
Own(i) == PartOf(i, held[i])
Believed(i) == Seed(held[i].ctx, [j \in Aggs |-> IF j = i THEN Own(i) ELSE hints[i][j]])
True(ctx) == Seed(ctx, [j \in Aggs |-> Own(j)])
Init ==
  /\ held \in [Aggs -> Inputs]
  /\ \E h \in [{x \in Aggs \X Aggs : x[1] # x[2]} -> Inputs \cup {Junk}] :
       hints = [i \in Aggs |-> [j \in Aggs |-> IF i = j \/ h[<<i, j>>] = Junk THEN <<"junk">>
                                              ELSE PartOf(j, h[<<i, j>>])]]
  /\ combiner \in Vary("ctx")
  /\ sent = [i \in Aggs |-> Own(i)]
  /\ msg = <<>>
  /\ done = [i \in Aggs |-> "waiting"]
\* The combiner hashes the parts it was sent.
Combine == msg = <<>> /\ msg' = Seed(combiner, sent) /\ UNCHANGED <<held, hints, sent, combiner, done>>
\* An aggregator compares the message with what it used.
Finish(i) ==
  /\ msg # <<>> /\ done[i] = "waiting"
  /\ done' = [done EXCEPT ![i] = IF msg = Believed(i) THEN "out" ELSE "failed"]
  /\ UNCHANGED <<held, hints, sent, combiner, msg>>
Next == Combine \/ \E i \in Aggs : Finish(i)
Spec == Init /\ [][Next]_vars

Outs == {i \in Aggs : done[i] = "out"}
\* Everyone who is done used the randomness derived from what all of them hold.
Derived == \A i \in Outs : Believed(i) = True(held[i].ctx)
Agreement == \A i, j \in Outs : Believed(i) = Believed(j)
\* So an aggregator told a wrong part of another one, or under another context, fails.
Hinted == \A i \in Outs : held[i].ctx = combiner /\ \A j \in Aggs \ {i} : hints[i][j] = Own(j)
\* The randomness depends on every share, blind, nonce: it is fixed only once all of them are.
Honest == /\ \A i \in Aggs : held[i].ctx = combiner
          /\ \A i \in Aggs : \A j \in Aggs \ {i} : hints[i][j] = Own(j)
Completes == Honest => \A i \in Aggs : done[i] # "failed"
=============================================================================
