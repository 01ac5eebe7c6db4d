----------------------------- MODULE JudgeVdaf ------------------------------
(***************************************************************************)
(* Conformance of single calls on VDAFs: every result is the one that the  *)
(* specification prescribes for the arguments, byte for byte.  The state   *)
(* of a trace is the sequence of verification states handed out so far.    *)
(***************************************************************************)
EXTENDS PingPong, Judge

NoState == [none |-> TRUE]
HasState(s) == "none" \notin DOMAIN s
EncOk(r) == IF r.ok THEN Ok(TLCEval(EncVec(r.val))) ELSE Refused
StepOut(V, r) ==
  IF ~r.ok THEN Refused
  ELSE IF r.val.more THEN Ok([more |-> TRUE, data |-> r.val.share])
  ELSE Ok([more |-> FALSE, data |-> TLCEval(VEncOut(V, r.val.out))])
AllOk(rs) == \A i \in 1..Len(rs) : rs[i].ok
Vals(rs) == TLCEval([i \in 1..Len(rs) |-> rs[i].val])

VdafCall(T, st, ev) ==
  LET V == T.Vs[ev.v]
      keep(v) == [bad |-> v, st |-> st]
  IN
  CASE ev.op = "shard" ->
         LET r == TLCEval(VShard(V, ev.ctx, ev.m, ev.nonce, ev.rand)) IN
         keep(IF r.ok /\ ev.out.ok
              THEN FirstBad(<< Same("public share", ev.out.val.public, r.val.public),
                               Same("number of input shares", Len(ev.out.val.inputs), Len(r.val.inputs)),
                               Same("input shares", ev.out.val.inputs, r.val.inputs) >>)
              ELSE Match("shard", ev.out, r))
    [] ev.op = "init" ->
         LET r == VInit(V, ev.key, ev.ctx, ev.id, ev.param, ev.nonce, ev.public, ev.input)
         IN  [bad |-> Match("verifier share of the first round", ev.out, IF r.ok THEN Ok(r.val.share) ELSE Refused),
              st  |-> Append(st, IF r.ok THEN r.val.state ELSE NoState)]
    [] ev.op = "combine" ->
         LET pa == VDecParam(V, ev.param)
             r  == IF pa.ok /\ HasState(st[ev.h]) THEN VCombine(V, ev.ctx, pa.val, st[ev.h], ev.shares) ELSE Refused
         IN  keep(Match("verifier message", ev.out, r))
    [] ev.op = "next" ->
         LET r == IF HasState(st[ev.h]) THEN VNext(V, ev.ctx, st[ev.h], ev.msg) ELSE Refused
         IN  [bad |-> Match("next step", ev.out, StepOut(V, r)),
              st  |-> Append(st, IF r.ok THEN (IF r.val.more THEN r.val.state ELSE NoState) ELSE NoState)]
    [] ev.op = "agginit" ->
         LET pa == VDecParam(V, ev.param)
         IN  keep(Match("initial aggregate", ev.out, IF pa.ok THEN Ok(TLCEval(EncVec(VAggInit(V, pa.val)))) ELSE Refused))
    [] ev.op = "aggupdate" ->
         LET pa == VDecParam(V, ev.param).val
             a == VDecOut(V, pa, ev.agg)
             o == VDecOut(V, pa, ev.o)
         IN  keep(Match("aggregate update", ev.out,
                        IF a.ok /\ o.ok THEN Ok(TLCEval(EncVec(VAdd(VAggField(V, pa), a.val, o.val)))) ELSE Refused))
    [] ev.op = "merge" ->
         LET pa == VDecParam(V, ev.param).val
             as == TLCEval([i \in 1..Len(ev.aggs) |-> VDecOut(V, pa, ev.aggs[i])])
         IN  keep(Match("merge", ev.out, IF AllOk(as) THEN Ok(TLCEval(EncVec(VMerge(V, pa, Vals(as))))) ELSE Refused))
    [] ev.op = "unshard" ->
         LET pa == VDecParam(V, ev.param).val
             as == TLCEval([i \in 1..Len(ev.aggs) |-> VDecOut(V, pa, ev.aggs[i])])
         IN  keep(Match("aggregate result", ev.out, IF AllOk(as) THEN Ok(TLCEval(VUnshard(V, pa, Vals(as)))) ELSE Refused))
=============================================================================
