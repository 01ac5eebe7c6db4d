------------------------------ MODULE PingPong ------------------------------
(***************************************************************************)
(* The ping-pong topology.  States of an aggregator are records            *)
(*   [tag |-> "start"]                                                     *)
(*   [tag |-> "continued", state, round, outbound]                         *)
(*   [tag |-> "finished", out]                                             *)
(*   [tag |-> "finished_outbound", out, outbound]                          *)
(*   [tag |-> "rejected"]                                                  *)
(***************************************************************************)
EXTENDS Vdaf

PPRejected == [tag |-> "rejected"]
PPEncode(type, items) == <<type>> \o Cat([i \in 1..Len(items) |-> BE(Len(items[i]), 4) \o items[i]])
\* Strict parsing: a type byte, then one or two length-prefixed items and nothing else.
RECURSIVE PPItems(_, _)
PPItems(b, n) ==
  IF n = 0 THEN IF b = <<>> THEN Ok(<<>>) ELSE Refused
  ELSE IF Len(b) < 4 \/ b[1] # 0 THEN Refused   \* items of 2^24 bytes or more are never present
  ELSE LET l == OfBE(Take(b, 4))
           rest == IF Len(b) < 4 + l THEN Refused ELSE PPItems(Drop(b, 4 + l), n - 1)
       IN  IF rest.ok THEN Ok(<<SubSeq(b, 5, 4 + l)>> \o rest.val) ELSE Refused
PPDecode(b) ==
  IF b = <<>> \/ b[1] \notin {0, 1, 2} THEN Refused
  ELSE LET it == PPItems(Tail(b), IF b[1] = 1 THEN 2 ELSE 1)
       IN  IF it.ok THEN Ok([type |-> b[1], items |-> it.val]) ELSE Refused

PPLeaderInit(V, key, ctx, paramB, nonce, publicB, inputB) ==
  LET r == VInit(V, key, ctx, 0, paramB, nonce, publicB, inputB)
  IN  IF ~r.ok THEN PPRejected
      ELSE [tag |-> "continued", state |-> r.val.state, round |-> 0, outbound |-> PPEncode(0, <<r.val.share>>)]

\* Combine the shares of a round, take the next step, and say what to send.
PPTransition(V, ctx, param, st, shares, round) ==
  LET m == VCombine(V, ctx, param, st, shares)
      nx == IF m.ok THEN VNext(V, ctx, st, m.val) ELSE Refused
  IN  IF ~nx.ok THEN PPRejected
      ELSE IF round + 1 = VRounds(V)
           THEN IF nx.val.more THEN PPRejected
                ELSE [tag |-> "finished_outbound", out |-> nx.val.out, outbound |-> PPEncode(2, <<m.val>>)]
      ELSE IF ~nx.val.more THEN PPRejected
      ELSE [tag |-> "continued", state |-> nx.val.state, round |-> round + 1,
            outbound |-> PPEncode(1, <<m.val, nx.val.share>>)]

PPHelperInit(V, key, ctx, paramB, nonce, publicB, inputB, inbound) ==
  LET r == VInit(V, key, ctx, 1, paramB, nonce, publicB, inputB)
      d == PPDecode(inbound)
  IN  IF ~r.ok \/ ~d.ok THEN PPRejected
      ELSE IF d.val.type # 0 THEN PPRejected
      ELSE PPTransition(V, ctx, VDecParam(V, paramB).val, r.val.state, <<d.val.items[1], r.val.share>>, 0)

PPContinue(V, isLeader, ctx, paramB, pp, inbound) ==
  LET d == PPDecode(inbound)
      pa == VDecParam(V, paramB)
      nx == IF d.ok THEN VNext(V, ctx, pp.state, d.val.items[1]) ELSE Refused
  IN  IF pp.tag # "continued" THEN PPRejected
      ELSE IF ~d.ok THEN PPRejected
      ELSE IF d.val.type = 0 \/ ~nx.ok THEN PPRejected
      ELSE IF pp.round + 1 < VRounds(V) /\ d.val.type = 1
           THEN IF ~pa.ok THEN PPRejected
                ELSE PPTransition(V, ctx, pa.val, nx.val.state,
                       IF isLeader THEN <<nx.val.share, d.val.items[2]>> ELSE <<d.val.items[2], nx.val.share>>,
                       pp.round + 1)
      ELSE IF pp.round + 1 = VRounds(V) /\ d.val.type = 2 THEN [tag |-> "finished", out |-> nx.val.out]
      ELSE PPRejected
=============================================================================
