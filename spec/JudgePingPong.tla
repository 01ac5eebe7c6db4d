---------------------------- MODULE JudgePingPong ---------------------------
(***************************************************************************)
(* Conformance of the ping-pong topology.  The trace's state is the        *)
(* sequence of states that the recorded calls returned; ev.from is the     *)
(* index of the one a call starts from (0: the state before the first).    *)
(***************************************************************************)
EXTENDS PingPong, Judge

\* What is visible of a state.
Visible(V, s) ==
  [tag |-> s.tag,
   outbound |-> IF s.tag \in {"continued", "finished_outbound"} THEN s.outbound ELSE <<>>,
   out |-> IF s.tag \in {"finished", "finished_outbound"} THEN VEncOut(V, s.out) ELSE <<>>]
StateVerdict(what, V, want, got) ==
  LET w == Visible(V, want) IN
  IF got.tag = "raised" THEN <<what, "raised an error", got.err>>
  ELSE IF got.tag # w.tag THEN <<what, "returned state", got.tag, "instead of", w.tag>>
  ELSE IF got.outbound # w.outbound THEN <<what, "sends a wrong message">>
  ELSE IF got.out # w.out THEN <<what, "outputs a wrong share">>
  ELSE Fine
PingPongCall(T, st, ev) ==
  LET V == T.Vs[ev.v]
      from == IF ev.op # "cont" THEN <<>> ELSE IF ev.from = 0 THEN [tag |-> "start"] ELSE st[ev.from]
      want == TLCEval(
        CASE ev.op = "linit" -> PPLeaderInit(V, ev.key, ev.ctx, ev.param, ev.nonce, ev.public, ev.input)
          [] ev.op = "hinit" -> PPHelperInit(V, ev.key, ev.ctx, ev.param, ev.nonce, ev.public, ev.input, ev.inbound)
          [] ev.op = "cont" -> PPContinue(V, ev.leader, ev.ctx, ev.param, from, ev.inbound)
          [] OTHER -> <<>>)
  IN  CASE ev.op \in {"linit", "hinit", "cont"} ->
             [bad |-> StateVerdict(ev.op, V, want, ev.out), st |-> Append(st, want)]
        \* an honest exchange has ended; outs are the output shares of a direct execution
        [] ev.op = "done" ->
             [st |-> st,
              bad |-> LET l == st[ev.l]
                          h == st[ev.h]
                          done == {"finished", "finished_outbound"}
                      IN  IF l.tag \notin done \/ h.tag \notin done THEN <<"honest exchange does not complete">>
                          ELSE IF ev.msgs # VRounds(V) + 1 THEN <<"wrong number of messages">>
                          ELSE IF ev.outs # <<VEncOut(V, l.out), VEncOut(V, h.out)>> THEN <<"outputs differ from those of direct execution">>
                          ELSE Fine]

\* Framing.
(* Long strings are given as runs <<byte, length>>, adjacent runs of different bytes and none *)
(* of them empty, so that a string has only one such form.                                  *)
RLen(r) == FoldLeft(LAMBDA n, x : n + x[2], 0, r)
RCat(r, s) ==
  IF r = <<>> THEN s ELSE IF s = <<>> THEN r
  ELSE IF r[Len(r)][1] # s[1][1] THEN r \o s
  ELSE SubSeq(r, 1, Len(r) - 1) \o <<<<s[1][1], r[Len(r)][2] + s[1][2]>>>> \o Tail(s)
ROf(b) == FoldLeft(LAMBDA r, x : RCat(r, <<<<x, 1>>>>), <<>>, b)
RECURSIVE RTake(_, _)
RTake(r, n) ==
  IF n = 0 THEN <<>>
  ELSE IF r[1][2] >= n THEN <<<<r[1][1], n>>>> ELSE <<r[1]>> \o RTake(Tail(r), n - r[1][2])
RECURSIVE RDrop(_, _)
RDrop(r, n) ==
  IF n = 0 THEN r
  ELSE IF r[1][2] > n THEN <<<<r[1][1], r[1][2] - n>>>> \o Tail(r) ELSE RDrop(Tail(r), n - r[1][2])
RECURSIVE RBytes(_)
RBytes(r) == IF r = <<>> THEN <<>> ELSE [i \in 1..r[1][2] |-> r[1][1]] \o RBytes(Tail(r))
LongEncode(type, items) ==
  FoldLeft(LAMBDA r, x : RCat(RCat(r, ROf(BE(RLen(x), 4))), x), <<<<type, 1>>>>, items)
RECURSIVE LongItems(_, _)
LongItems(r, n) ==
  IF n = 0 THEN IF r = <<>> THEN Ok(<<>>) ELSE Refused
  ELSE IF RLen(r) < 4 THEN Refused
  ELSE LET h == RBytes(RTake(r, 4))
           rest == RDrop(r, 4)
           l == OfBE(h)
           more == IF h[1] > 63 THEN Refused   \* longer than anything present
                   ELSE IF RLen(rest) < l THEN Refused ELSE LongItems(RDrop(rest, l), n - 1)
       IN  IF more.ok THEN Ok(<<RTake(rest, l)>> \o more.val) ELSE Refused
LongDecode(r) ==
  IF r = <<>> THEN Refused
  ELSE LET t == r[1][1]
       IN  IF t \notin {0, 1, 2} THEN Refused
           ELSE LET it == LongItems(RDrop(r, 1), IF t = 1 THEN 2 ELSE 1)
                IN  IF it.ok THEN Ok([type |-> t, items |-> it.val]) ELSE Refused

FrameCall(ev) ==
  CASE ev.op = "enc" -> Each(Len(ev.cases), LAMBDA i : Match("framing", ev.cases[i].out, Ok(PPEncode(ev.cases[i].type, ev.cases[i].items))))
    [] ev.op = "dec" -> Each(Len(ev.cases), LAMBDA i :
         LET d == PPDecode(ev.cases[i].b)
         IN  Match("parsing", ev.cases[i].out, IF d.ok THEN Ok(<<<<d.val.type>>>> \o d.val.items) ELSE Refused))
    \* Through a party: what its VDAF was given to decode after message ev.b arrived where kinds ev.kinds are legal.
    [] ev.op = "via" ->
         LET d == PPDecode(ev.b)
             legal == IF d.ok THEN d.val.type = ev.kind ELSE FALSE
         IN  IF ~legal THEN Check("acted on a message that is not legal", ~ev.advanced)
             ELSE IF ~ev.advanced THEN <<"refused a legal message">>
             ELSE Same("items given to the VDAF", ev.seen, d.val.items)
    [] ev.op = "enclong" -> Match("framing", ev.out, Ok(LongEncode(ev.type, ev.items)))
    [] ev.op = "declong" ->
         LET d == LongDecode(ev.b) IN Match("parsing", ev.out, IF d.ok THEN Ok(<<<<d.val.type>>>> \o d.val.items) ELSE Refused)
    [] ev.op = "vialong" ->
         LET d == LongDecode(ev.b)
             legal == IF d.ok THEN d.val.type = ev.kind ELSE FALSE
         IN  IF ~legal THEN Check("acted on a message that is not legal", ~ev.advanced)
             ELSE IF ~ev.advanced THEN <<"refused a legal message">>
             ELSE Same("items given to the VDAF", ev.seen, d.val.items)
=============================================================================
