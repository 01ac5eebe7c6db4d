------------------------------ MODULE Scenario ------------------------------
(***************************************************************************)
(* Whole executions of the verification of one report, with a client and a *)
(* network that may deviate from the protocol, and aggregators that may    *)
(* disagree about their inputs.  A scenario is a record with               *)
(*   client - [ctx, nonce, rand] and the measurement m, or an arbitrary    *)
(*            vector in place of its encoding (Prio3), or other programmed *)
(*            values per level (Poplar1)                                   *)
(*   aggs   - per aggregator [v, key, ctx, id, param, nonce]: the instance *)
(*            it runs and the arguments it uses                            *)
(*   comb   - which aggregator's context and instance combine the shares   *)
(*   edits  - alterations of what is delivered                             *)
(*   evals  - optionally (Poplar1) evaluations that the point function     *)
(*            gives each aggregator instead of its own                     *)
(* The outcome says which aggregators obtain an output share.              *)
(***************************************************************************)
EXTENDS PingPong

(* Alterations.  An edit has a stage (at: "public", "input", "share", "msg"), a round and   *)
(* an aggregator i it applies to; selections (op "sel") rearrange the values of all.         *)
EditOne(b, e, old) ==
  CASE e.op = "xor" -> IF b = <<>> THEN b ELSE [b EXCEPT ![(e.pos % Len(b)) + 1] = XorB(<<@>>, <<e.val>>)[1]]
    [] e.op = "set" -> e.data
    [] e.op = "put" -> [k \in 1..Len(b) |-> IF k > e.pos /\ k <= e.pos + Len(e.data) THEN e.data[k - e.pos] ELSE b[k]]
    [] e.op = "trunc" -> Take(b, IF Len(b) > e.pos THEN Len(b) - e.pos ELSE 0)
    [] e.op = "append" -> b \o e.data
    [] e.op = "old" -> old[e.pos]
    [] e.op = "none" -> <<-1>>
    [] e.op = "direct" -> <<-2>> \o e.data
    [] OTHER -> b
ApplyTo(vals, edits, at, round, old) ==
  LET mine == SelectSeq(edits, LAMBDA e : e.at = at /\ e.round = round)
      step(vs, e) ==
        IF e.op = "sel" THEN TLCEval([k \in 1..Len(e.sel) |-> vs[e.sel[k]]])
        ELSE TLCEval([k \in 1..Len(vs) |-> IF k = e.i \/ e.i = 0 THEN EditOne(vs[k], e, old) ELSE vs[k]])
  IN  FoldLeft(step, vals, mine)

ClientShard(V, cl) ==
  IF "vec" \in DOMAIN cl
  THEN IF CtxFits(cl.ctx) THEN Ok(TLCEval(P3ShardVec(V, cl.ctx, cl.vec, cl.nonce, cl.rand))) ELSE Refused
  ELSE IF "beta" \in DOMAIN cl THEN Ok(TLCEval(PopShardWith(V, cl.ctx, cl.m, cl.nonce, cl.rand, cl.beta)))
  ELSE TLCEval(VShard(V, cl.ctx, cl.m, cl.nonce, cl.rand))

AllFail(n) == [i \in 1..n |-> FALSE]

\* The rounds: st holds the aggregators' states, sh their shares of this round, old the
\* shares delivered in the previous round.
RECURSIVE Rounds(_, _, _, _, _, _)
Rounds(Vs, sc, round, st, sh, old) ==
  LET n == Len(sc.aggs)
      c == sc.comb
      V == Vs[sc.aggs[c].v]
      pa == VDecParam(V, sc.aggs[c].param)
      delivered == ApplyTo(sh, sc.edits, "share", round, old)
      m == VCombine(V, sc.aggs[c].ctx, pa.val, st[c], delivered)
      msgs == ApplyTo([i \in 1..n |-> m.val], sc.edits, "msg", round, delivered)
      nx == TLCEval([i \in 1..n |-> VNext(Vs[sc.aggs[i].v], sc.aggs[i].ctx, st[i], msgs[i])])
      more == TLCEval([i \in 1..n |-> nx[i].ok /\ nx[i].val.more])
  IN  IF ~m.ok THEN AllFail(n)
      ELSE IF \E i \in 1..n : more[i]
      THEN IF \A i \in 1..n : more[i]
           THEN Rounds(Vs, sc, round + 1, [i \in 1..n |-> nx[i].val.state], [i \in 1..n |-> nx[i].val.share], delivered)
           ELSE TLCEval([i \in 1..n |-> nx[i].ok /\ ~more[i]])
      ELSE TLCEval([i \in 1..n |-> nx[i].ok])

Outcome(Vs, sc) ==
  LET n == Len(sc.aggs)
      rep == ClientShard(Vs[sc.cv], sc.client)
      pubs == ApplyTo([i \in 1..n |-> rep.val.public], sc.edits, "public", 0, <<>>)
      inps == ApplyTo(rep.val.inputs, sc.edits, "input", 0, <<>>)
      given(i) ==
        LET a  == sc.aggs[i]
            V  == Vs[a.v]
            pa == TLCEval(VDecParam(V, a.param)).val
        IN  TLCEval(PopSketch(V, a.key, a.ctx, a.id, pa, a.nonce, VDecInput(V, a.id, inps[i]).val, Ok(sc.evals[i])))
      st == TLCEval([i \in 1..n |->
              IF "evals" \in DOMAIN sc THEN given(i)
              ELSE VInit(Vs[sc.aggs[i].v], sc.aggs[i].key, sc.aggs[i].ctx, sc.aggs[i].id, sc.aggs[i].param,
                         sc.aggs[i].nonce, pubs[i], inps[i])])
  IN  IF ~rep.ok THEN AllFail(n)
      ELSE IF \E i \in 1..n : ~st[i].ok THEN AllFail(n)
      ELSE Rounds(Vs, sc, 1, [i \in 1..n |-> st[i].val.state], [i \in 1..n |-> st[i].val.share], <<>>)
=============================================================================
