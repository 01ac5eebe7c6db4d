------------------------------ MODULE JudgeAgg ------------------------------
(***************************************************************************)
(* Conformance of aggregation-parameter admission and of aggregation.      *)
(***************************************************************************)
EXTENDS Vdaf, Judge

Offers(T, ev) ==
  LET V == T.Vs[ev.v] IN
  Each(Len(ev.offers), LAMBDA i :
    LET want == VIsValid(V, ev.offers[i].param, ev.prev)
        r    == ev.offers[i].out
    IN  IF ~r.ok THEN <<"admission test fails", r.err>>
        ELSE IF r.val = want THEN Fine
        ELSE IF r.val THEN <<"admitted what must not be", ev.offers[i].how>> ELSE <<"not admitted", ev.offers[i].how>>)

\* A schedule: ev.ops as in SchedModel, each with the resulting (encoded) partial aggregate or refusal;
\* ev.outs are the encoded output shares.
Vec(V, param, b) == VDecOut(V, param, b)
Schedule(T, ev) ==
  LET V == T.Vs[ev.v]
      F == VAggField(V, ev.param)
      outs == TLCEval([i \in 1..Len(ev.outs) |-> Chunks(ev.outs[i], F.size)])
      n == Len(VAggInit(V, ev.param))
      step(a, o) ==
        LET fits(v) == Len(v) = n
            want ==
              CASE o.op = "init" -> Ok(VAggInit(V, ev.param))
                [] o.op = "update" ->
                     IF Len(a.parts[o.part]) = Len(outs[o.args[1]]) THEN Ok(VAdd(F, a.parts[o.part], outs[o.args[1]])) ELSE Refused
                [] o.op = "merge" ->
                     IF \A j \in 1..Len(o.args) : fits(a.parts[o.args[j]])
                     THEN Ok(VMerge(V, ev.param, [j \in 1..Len(o.args) |-> a.parts[o.args[j]]])) ELSE Refused
                [] o.op = "import" -> Ok(outs[o.args[1]])
            got == IF o.out.ok THEN [ok |-> TRUE, val |-> o.out.val] ELSE o.out
            bad == IF ~o.kept THEN <<"operands changed by", o.op>>
                   ELSE Match(o.op, got, IF want.ok THEN Ok(VEncOut(V, want.val)) ELSE want)
        IN  IF a.bad # Fine THEN a
            ELSE [bad |-> bad,
                  parts |-> IF ~want.ok THEN a.parts
                            ELSE IF o.op = "update" THEN [a.parts EXCEPT ![o.part] = want.val]
                            ELSE Append(a.parts, want.val)]
      end == FoldLeft(step, [bad |-> Fine, parts |-> <<>>], ev.ops)
  IN  end.bad
\* Unsharding the aggregate shares of all aggregators.
Unsharded(T, ev) ==
  LET V == T.Vs[ev.v]
      F == VAggField(V, ev.param)
      n == Len(VAggInit(V, ev.param))
      aggs == TLCEval([i \in 1..Len(ev.aggs) |-> Chunks(ev.aggs[i], F.size)])
  IN  IF ~ev.kept THEN <<"operands changed by unshard">>
      ELSE IF \E i \in 1..Len(aggs) : Len(aggs[i]) # n THEN Match("unshard of shares of wrong length", ev.out, Refused)
      ELSE Match("unshard", ev.out, Ok(VUnshard(V, ev.param, aggs)))

AggCall(T, ev) ==
  CASE ev.op = "offers" -> Offers(T, ev)
    [] ev.op = "schedule" -> Schedule(T, ev)
    [] ev.op = "unshard" -> Unsharded(T, ev)
=============================================================================
