--------------------------- MODULE PingPongModel ----------------------------
(***************************************************************************)
(* A two-party exchange over a network that an adversary controls: it may  *)
(* deliver to either party, at any time, any message sent so far (again,   *)
(* or to the wrong party), any altered version of one, or any message of   *)
(* another exchange.  Complete behaviours are printed, to be replayed into *)
(* the code.                                                               *)
(***************************************************************************)
EXTENDS PingPong, Json, IOUtils

Rounds == atoi(IOEnv.ROUNDS)
MaxEvil == atoi(IOEnv.EVIL)
V == [kind |-> "toy", rounds |-> Rounds]
None == <<>>
Input(x, id) == IF id = 0 THEN <<x, x + 1>> ELSE <<x + 2, x + 3>>
LeaderStart(x) == PPLeaderInit(V, None, None, None, None, None, Input(x, 0))
HelperStart(x, m) == PPHelperInit(V, None, None, None, None, None, Input(x, 1), m)
To(x, party, s, m) ==
  IF party = "helper" /\ s.tag = "start" THEN HelperStart(x, m)
  ELSE PPContinue(V, party = "leader", None, None, s, m)
Terminal(s) == s.tag \in {"finished", "finished_outbound", "rejected"}
Done(s) == s.tag \in {"finished", "finished_outbound"}
Sent(s) == IF s.tag \in {"continued", "finished_outbound"} THEN {s.outbound} ELSE {}

\* All messages of an honest exchange over the other report.
RECURSIVE Transcript(_, _, _)
Transcript(l, h, turn) ==
  LET m == IF turn = "helper" THEN Sent(l) ELSE Sent(h) IN
  IF m = {} THEN {}
  ELSE LET x == CHOOSE x \in m : TRUE
       IN  m \cup IF turn = "helper"
                  THEN (IF Terminal(h) THEN {} ELSE Transcript(l, To(100, "helper", h, x), "leader"))
                  ELSE (IF Terminal(l) THEN {} ELSE Transcript(To(100, "leader", l, x), h, "helper"))
Foreign == Transcript(LeaderStart(100), [tag |-> "start"], "helper")

Altered(m) ==
  {<<ty>> \o Tail(m) : ty \in 0..3}
  \cup {Take(m, Len(m) - 1), <<>>, m \o <<0>>, m \o m, Tail(m)}
  \cup {[m EXCEPT ![i] = (@ + 1) % 256] : i \in 1..Len(m)}
  \cup LET d == PPDecode(m) IN
       IF ~d.ok THEN {}
       ELSE {PPEncode(ty, d.val.items) : ty \in 0..2}
            \cup {PPEncode(ty, <<d.val.items[i]>>) : ty \in {0, 2}, i \in 1..Len(d.val.items)}
            \cup {PPEncode(1, <<d.val.items[i], d.val.items[j]>>) : i, j \in 1..Len(d.val.items)}
            \cup {PPEncode(1, <<d.val.items[1], ToyShare([round |-> r, id |-> id, inp |-> <<9, 9>>, tag |-> 0])>>) : r \in 1..(Rounds + 1), id \in 0..1}

\* The parties, all messages sent, the deliveries so far, how many of them were not the honest one.
VARIABLES L, H, pool, hist, evil
vars == <<L, H, pool, hist, evil>>
Init ==
  /\ L = LeaderStart(1)
  /\ H = [tag |-> "start"]
  /\ pool = Sent(L)
  /\ hist = <<>>
  /\ evil = 0
\* What the other party sent last.
Turn(party) ==
  LET acc == SelectSeq(hist, LAMBDA h : h.tag # "rejected")
  IN  IF acc = <<>> THEN party = "helper" ELSE acc[Len(acc)].to # party
Honest(party) == IF ~Turn(party) THEN {} ELSE IF party = "leader" THEN Sent(H) ELSE Sent(L)
Deliver(party, m) ==
  LET s == IF party = "leader" THEN L ELSE H
      n == To(1, party, s, m)
      good == m \in Honest(party) /\ ~Terminal(s)
  IN  /\ good \/ evil < MaxEvil
      /\ evil' = IF good THEN evil ELSE evil + 1
      /\ hist' = Append(hist, [to |-> party, msg |-> m, tag |-> n.tag])
      \* a party that is done keeps its result: a further call is refused and changes nothing
      /\ IF party = "leader" THEN L' = (IF Terminal(L) THEN L ELSE n) /\ H' = H
                             ELSE H' = (IF Terminal(H) THEN H ELSE n) /\ L' = L
      /\ pool' = pool \cup Sent(n)
Messages == pool \cup Foreign \cup UNION {Altered(m) : m \in Sent(L) \cup Sent(H)}
Next ==
  \/ \E party \in {"leader", "helper"}, m \in Messages : Deliver(party, m)
Spec == Init /\ [][Next]_vars

\* A party is done only after as many accepted deliveries as it has to verify rounds, and its output is its own share.
Accepted(party) == Cardinality({i \in 1..Len(hist) : hist[i].to = party /\ hist[i].tag # "rejected"})
OwnOutput ==
  /\ Done(L) => L.out = Input(1, 0)
  /\ Done(H) => H.out = Input(1, 1)
EnoughRounds ==
  /\ Done(L) => Accepted("leader") = (Rounds + 1) \div 2
  /\ Done(H) => Accepted("helper") = Rounds \div 2 + 1
\* Without interference both are done after Rounds + 1 messages.
Completes == (evil = 0 /\ Len(hist) = Rounds + 1) => Done(L) /\ Done(H)
NoHonestRejection == evil = 0 => L.tag # "rejected" /\ H.tag # "rejected"
TypeOK == \A i \in 1..Len(hist) : hist[i].tag \in {"continued", "finished", "finished_outbound", "rejected"}
Leaf == (evil = MaxEvil \/ Len(hist) > Rounds) /\ \A p \in {"leader", "helper"} : Terminal(IF p = "leader" THEN L ELSE H) \/ Honest(p) = {}
Emit == Leaf => PrintT(<<"pp", ToJson(hist)>>)
=============================================================================
