----------------------------- MODULE JudgeIdpf ------------------------------
(***************************************************************************)
(* Conformance of calls on the incremental point function.  T.I is the     *)
(* instance [bits, vl].                                                    *)
(***************************************************************************)
EXTENDS Idpf, Judge

IdpfGenOk(I, ev) ==
  /\ Len(ev.alpha) = I.bits
  /\ Len(ev.betas) = I.bits
  /\ \A l \in 1..Len(ev.betas) : Len(ev.betas[l]) = I.vl
  /\ Len(ev.nonce) = 16
  /\ Len(ev.rand) = 32
  /\ Len(ev.ctx) + 8 < 65536

IdpfCall(T, ev) ==
  LET I == T.I IN
  CASE ev.op = "gen" ->
         LET g == IdpfGen(I.bits, I.vl, ev.alpha, ev.betas, ev.ctx, ev.nonce, ev.rand)
             want == IF IdpfGenOk(I, ev) THEN Ok([public |-> TLCEval(EncIdpfPublic(I.bits, g.public)), keys |-> g.keys]) ELSE Refused
         IN  IF want.ok /\ ev.out.ok
             THEN FirstBad(<< Same("public share of the point function", ev.out.val.public, want.val.public),
                              Same("keys of the point function", ev.out.val.keys, want.val.keys) >>)
             ELSE Match("generation of keys", ev.out, want)
    [] ev.op = "eval" ->
         LET pub == TLCEval(DecIdpfPublic(I.bits, I.vl, ev.public))
         IN  Match("evaluation", ev.out,
                   IF pub.ok THEN IdpfEval(I.bits, I.vl, ev.id, pub.val, ev.key, ev.level, ev.prefixes, ev.ctx, ev.nonce) ELSE Refused)
    [] ev.op = "refuse" ->   \* acceptance only
         Check("evaluation of impermissible arguments is not refused",
               ev.ok = IdpfEvalOk(I.bits, ev.id, ev.level, ev.prefixes))
    [] ev.op = "genrefuse" ->
         Check("generation with impermissible arguments is not refused", ev.ok = IdpfGenOk(I, ev))
    [] ev.op = "point" ->    \* the two parties' values sum to the point function
         LET F == LevelField(I.bits, ev.level)
             want(i) == IF Take(ev.alpha, ev.level + 1) = ev.prefixes[i] THEN ev.beta ELSE VZeros(F, I.vl)
             n == Len(ev.prefixes)
         IN  IF Len(ev.y0) # n \/ Len(ev.y1) # n THEN <<"number of values differs from the number of prefixes">>
             ELSE Each(n, LAMBDA i :
               IF Len(ev.y0[i]) # I.vl \/ Len(ev.y1[i]) # I.vl THEN <<"length of a value">>
               ELSE IF VAdd(F, ev.y0[i], ev.y1[i]) # want(i)
               THEN <<"the shares do not sum to the point function">> ELSE Fine)
=============================================================================
