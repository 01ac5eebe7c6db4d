------------------------------- MODULE Driver -------------------------------
(***************************************************************************)
(* The protocol as a driver has to run it, for any scheme: which operation *)
(* of which party may be called when, and with what.  Values exchanged are *)
(* symbols <<kind, report, round, aggregator>>, so that the specification  *)
(* says exactly whose share, state or message every argument must be.      *)
(*                                                                         *)
(* P describes the run: kind ("vdaf" or "daf"), n aggregators, rounds,     *)
(* batch reports, the declared sizes nonce and rand, and the key, context  *)
(* and aggregation parameter.  The state S holds what has been done.       *)
(***************************************************************************)
EXTENDS Judge

SPub(i) == <<1, i, 0, 0>>
SIn(i, j) == <<2, i, 0, j>>
SSt(i, r, j) == <<3, i, r, j>>
SSh(i, r, j) == <<4, i, r, j>>
SMsg(i, r) == <<5, i, r, 0>>
SOut(i, j) == <<6, i, 0, j>>
SResult == <<9, 0, 0, 0>>

Start == [clients |-> <<>>, did |-> {}, coins |-> {}]
\* A string in pieces of eight bytes.
Pieces(b) == [k \in 1..(Len(b) \div 8) |-> SubSeq(b, 8 * k - 7, 8 * k)]
Range8(s) == {s[k] : k \in 1..Len(s)}
Client(S, i) == SelectSeq(S.clients, LAMBDA c : c.i = i)
Aggs(P) == 0..(P.n - 1)
Reports(P) == 1..P.batch

\* The identity of a call: what it does, for which report, in which round, by whom.
Name(c) ==
  CASE c.op = "shard" -> <<"shard", c.m, 0, 0>>
    [] c.op = "init" -> <<"init", c.input[2], 1, c.id>>
    [] c.op = "prep" -> <<"prep", c.input[2], 1, c.id>>
    [] c.op = "combine" -> <<"combine", c.shares[1][2], c.shares[1][3], 0>>
    [] c.op = "next" -> <<"next", c.state[2], c.state[3], c.state[4]>>
    [] c.op = "agginit" -> <<"agginit", 0, 0, 0>>
    [] c.op = "aggupdate" -> <<"aggupdate", c.o[2], 0, c.o[4]>>
    [] c.op = "unshard" -> <<"unshard", 0, 0, 0>>

\* An aggregate share is the sequence of the output shares in it.
Holds(agg) == {agg[k] : k \in 1..Len(agg)}
Complete(P, S, agg, j) ==
  /\ Len(agg) = P.batch
  /\ Holds(agg) = {SOut(i, j) : i \in Reports(P)}

Sized(b, n) == Len(b) = n
ShardCall(P, S, c) ==
  FirstBad(<<
    Check("shard: not a measurement of the batch", c.m \in Reports(P)),
    Check("shard: a measurement is sharded twice", Client(S, c.m) = <<>>),
    Check("shard: context", c.ctx = P.ctx),
    Check("shard: size of the nonce", Sized(c.nonce, P.nonce)),
    Check("shard: size of the randomness", Sized(c.rand, P.rand)),
    Check("shard: the nonce is not fresh", P.nonce < 8 \/ \A k \in 1..Len(S.clients) : S.clients[k].nonce # c.nonce),
    Check("shard: the randomness is not fresh", P.rand < 8 \/ \A k \in 1..Len(S.clients) : S.clients[k].rand # c.rand),
    LET all == TLCEval(Pieces(c.nonce) \o Pieces(c.rand))
        set == TLCEval(Range8(all))
    IN  Check("shard: parts of nonce and randomness are not independent",
              Cardinality(set) = Len(all) /\ set \cap S.coins = {}) >>)
ReportShare(P, S, c) ==
  LET i == c.input[2]
      cl == Client(S, i)
  IN  FirstBad(<<
        Check("verification: of a report that does not exist", cl # <<>>),
        Check("verification: aggregator identifier", c.id \in Aggs(P)),
        Check("verification: another aggregator's input share", c.input = SIn(i, c.id)),
        Check("verification: another report's public share", c.public = SPub(i)),
        Check("verification: another report's nonce", cl # <<>> /\ c.nonce = cl[1].nonce),
        Check("verification: context", c.ctx = P.ctx),
        Check("verification: aggregation parameter", c.param = P.param),
        Check("verification: verification key", P.kind = "daf" \/ c.key = P.key) >>)
CombineCall(P, S, c) ==
  LET i == c.shares[1][2]
      r == c.shares[1][3]
  IN  FirstBad(<<
        Check("combine: number of shares", Len(c.shares) = P.n),
        Check("combine: shares of the current round in order",
              \A k \in 1..Len(c.shares) : c.shares[k] = SSh(i, r, k - 1)),
        Check("combine: a share does not exist yet",
              \A j \in Aggs(P) : (IF r = 1 THEN <<"init", i, 1, j>> ELSE <<"next", i, r - 1, j>>) \in S.did),
        Check("combine: context", c.ctx = P.ctx),
        Check("combine: aggregation parameter", c.param = P.param) >>)
NextCall(P, S, c) ==
  LET i == c.state[2]
      r == c.state[3]
      j == c.state[4]
  IN  FirstBad(<<
        Check("next: the state does not exist yet",
              (IF r = 1 THEN <<"init", i, 1, j>> ELSE <<"next", i, r - 1, j>>) \in S.did),
        Check("next: not the message of this round", c.msg = SMsg(i, r) /\ <<"combine", i, r, 0>> \in S.did),
        Check("next: context", c.ctx = P.ctx) >>)
UpdateCall(P, S, c) ==
  LET i == c.o[2]
      j == c.o[4]
  IN  FirstBad(<<
        Check("aggregate: not an output share of a verified report",
              (IF P.kind = "daf" THEN <<"prep", i, 1, j>> ELSE <<"next", i, P.rounds, j>>) \in S.did),
        Check("aggregate: another aggregator's shares", \A k \in 1..Len(c.agg) : c.agg[k][4] = j),
        Check("aggregate: counted twice", c.o \notin Holds(c.agg)),
        Check("aggregate: aggregation parameter", c.param = P.param) >>)
UnshardCall(P, S, c) ==
  FirstBad(<<
    Check("unshard: number of aggregate shares", Len(c.aggs) = P.n),
    Check("unshard: the aggregate shares are not those of the batch, in order",
          \A k \in 1..Len(c.aggs) : Complete(P, S, c.aggs[k], k - 1)),
    Check("unshard: number of measurements", c.num = P.batch),
    Check("unshard: aggregation parameter", c.param = P.param) >>)

\* The verdict on call c in state S, and the state after it.
May(P, S, c) ==
  LET v == CASE c.op = "shard" -> ShardCall(P, S, c)
             [] c.op \in {"init", "prep"} ->
                  IF c.op # (IF P.kind = "daf" THEN "prep" ELSE "init") THEN <<"an operation of another kind of scheme">>
                  ELSE ReportShare(P, S, c)
             [] c.op = "combine" -> CombineCall(P, S, c)
             [] c.op = "next" -> NextCall(P, S, c)
             [] c.op = "agginit" -> Check("aggregate: aggregation parameter", c.param = P.param)
             [] c.op = "aggupdate" -> UpdateCall(P, S, c)
             [] c.op = "unshard" -> UnshardCall(P, S, c)
  IN  IF v # Fine THEN v
      \* combining is public and starting an empty aggregate has no effect: they may be repeated
      ELSE IF c.op \notin {"combine", "agginit"} /\ Name(c) \in S.did THEN <<c.op, "called twice">>
      ELSE Fine
After(P, S, c) ==
  [clients |-> IF c.op = "shard" THEN Append(S.clients, [i |-> c.m, nonce |-> c.nonce, rand |-> c.rand]) ELSE S.clients,
   did |-> S.did \cup {Name(c)},
   coins |-> IF c.op = "shard" THEN S.coins \cup Range8(Pieces(c.nonce) \o Pieces(c.rand)) ELSE S.coins]

\* What a complete run has done.
Duties(P) ==
  {<<"shard", i, 0, 0>> : i \in Reports(P)}
  \cup (IF P.kind = "daf" THEN {<<"prep", i, 1, j>> : i \in Reports(P), j \in Aggs(P)}
        ELSE {<<"init", i, 1, j>> : i \in Reports(P), j \in Aggs(P)}
             \cup {<<"combine", i, r, 0>> : i \in Reports(P), r \in 1..P.rounds}
             \cup {<<"next", i, r, j>> : i \in Reports(P), r \in 1..P.rounds, j \in Aggs(P)})
  \cup {<<"aggupdate", i, 0, j>> : i \in Reports(P), j \in Aggs(P)}
  \cup {<<"unshard", 0, 0, 0>>}
=============================================================================
