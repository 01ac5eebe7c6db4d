-------------------------------- MODULE Vdaf --------------------------------
(***************************************************************************)
(* The common interface: Prio3, Poplar1, and a many-round VDAF that exists *)
(* only to drive the ping-pong topology through more than two rounds.      *)
(* All arguments and results are wire encodings, except verification       *)
(* states, which never leave an aggregator.                                *)
(***************************************************************************)
EXTENDS Prio3, Poplar1

(* The many-round VDAF ("toy"): V.rounds rounds.  An input share is two bytes, an aggregation *)
(* parameter up to three.  A tag depends on the bytes of key, context, parameter and nonce. *)
(* The verifier share of round r is <<r + tag, id>> \o input; the message is the first byte *)
(* plus the combiner's context and parameter, and both inputs in order; each aggregator     *)
(* checks the first byte by its own tag, context and parameter, and its own input.          *)
ByteSum(b) == FoldLeft(LAMBDA s, x : (s + x) % 256, 0, b)
ToyTag(key, ctx, par, nonce) == (7 * ByteSum(key) + ByteSum(ctx) + 5 * ByteSum(par) + 11 * ByteSum(nonce)) % 256
ToyHere(ctx, par) == (ByteSum(ctx) + 5 * ByteSum(par)) % 256
ToyShare(st) == <<(st.round + st.tag) % 256, st.id>> \o st.inp

VRounds(V) == CASE V.kind = "prio3" -> 1 [] V.kind = "poplar1" -> 2 [] OTHER -> V.rounds
VShares(V) == IF V.kind = "prio3" THEN V.shares ELSE 2
VShard(V, ctx, m, nonce, rand) ==
  CASE V.kind = "prio3" -> P3Shard(V, ctx, m, nonce, rand)
    [] V.kind = "poplar1" -> PopShard(V, ctx, m, nonce, rand)
    [] OTHER -> Ok([public |-> <<>>, inputs |-> <<SubSeq(rand, 1, 2), SubSeq(rand, 3, 4)>>])

\* Decoded aggregation parameter.  Prio3 has only one, encoded as no bytes.
VDecParam(V, b) ==
  IF V.kind = "poplar1" THEN PopDecParam(V, b)
  ELSE IF V.kind = "toy" THEN IF Len(b) <= 3 THEN Ok(b) ELSE Refused
  ELSE IF b = <<>> THEN Ok([level |-> 0, prefixes |-> <<>>]) ELSE Refused

VDecPublic(V, b) ==
  CASE V.kind = "prio3" -> P3DecPublic(V, b)
    [] V.kind = "poplar1" -> PopDecPublic(V, b)
    [] OTHER -> IF b = <<>> THEN Ok(<<>>) ELSE Refused
VDecInput(V, id, b) ==
  CASE V.kind = "prio3" -> P3DecInput(V, id, b)
    [] V.kind = "poplar1" -> PopDecInput(V, b)
    [] OTHER -> IF Len(b) = 2 THEN Ok(b) ELSE Refused
VDecShare(V, st, b) ==
  CASE V.kind = "prio3" -> P3DecShare(V, b)
    [] V.kind = "poplar1" -> PopDecShare(V, st, b)
    [] OTHER -> IF Len(b) = 4 THEN Ok(b) ELSE Refused
VDecMessage(V, st, b) ==
  CASE V.kind = "prio3" -> P3DecMessage(V, b)
    [] V.kind = "poplar1" -> PopDecMessage(V, st, b)
    [] OTHER -> IF Len(b) = 5 THEN Ok(b) ELSE Refused
VDecOut(V, param, b) ==
  CASE V.kind = "prio3" -> P3DecOut(V, b)
    [] V.kind = "poplar1" -> PopDecOut(V, param, b)
    [] OTHER -> IF Len(b) = 2 THEN Ok(b) ELSE Refused
\* Encoding of output and aggregate shares.
VEncOut(V, out) == IF V.kind = "toy" THEN out ELSE EncVec(out)

\* The first step of an aggregator, from decoded arguments.
VInitD(V, key, ctx, id, param, nonce, public, input) ==
  CASE V.kind = "prio3" -> P3VerifyInit(V, key, ctx, id, nonce, public, input)
    [] V.kind = "poplar1" -> PopVerifyInit(V, key, ctx, id, param, nonce, public, input)
    [] OTHER -> LET st == [round |-> 1, id |-> id, inp |-> input, tag |-> ToyTag(key, ctx, param, nonce), par |-> param] IN Ok([state |-> st, share |-> ToyShare(st)])
\* ... and from encoded ones.
VInit(V, key, ctx, id, paramB, nonce, publicB, inputB) ==
  LET pa == TLCEval(VDecParam(V, paramB))
      pu == TLCEval(VDecPublic(V, publicB))
      in == TLCEval(VDecInput(V, id, inputB))
  IN  IF pa.ok /\ pu.ok /\ in.ok THEN TLCEval(VInitD(V, key, ctx, id, pa.val, nonce, pu.val, in.val)) ELSE Refused

\* Combination of decoded shares.  The result is an encoded message.
VCombineD(V, ctx, param, shares) ==
  CASE V.kind = "prio3" -> P3Combine(V, ctx, shares)
    [] V.kind = "poplar1" -> PopCombine(V, param, shares)
    [] OTHER -> IF /\ Len(shares) = 2
                   /\ shares[1][2] = 0
                   /\ shares[2][2] = 1
                   /\ shares[1][1] = shares[2][1]
                THEN Ok(<<(shares[1][1] + ToyHere(ctx, param)) % 256>> \o Drop(shares[1], 2) \o Drop(shares[2], 2)) ELSE Refused
(* Values passed to an operation without going through a decoder begin with a negative      *)
(* number: <<-1>> is the absence of a message, <<-2>> \o b the value spelled b.  Only Poplar1's *)
(* vectors can be spelled so as verifier shares; a direct verifier share of Prio3 is always *)
(* one without the parts it must have.                                                      *)
IsDirect(b) == b # <<>> /\ b[1] < 0
VShareOf(V, st, b) ==
  IF ~IsDirect(b) THEN VDecShare(V, st, b)
  ELSE IF V.kind = "poplar1" THEN DecVec(PopF(V, st.level), Tail(b)) ELSE Refused
VMessageOf(V, st, b) ==
  IF ~IsDirect(b) THEN VDecMessage(V, st, b)
  ELSE CASE V.kind = "prio3" -> IF P3Joint(V) THEN (IF b[1] = -1 THEN Refused ELSE Ok(Tail(b)))
                                ELSE IF b[1] = -1 THEN Ok(<<>>) ELSE Refused
         [] V.kind = "poplar1" -> IF st.round = 1 THEN (IF b[1] = -1 THEN Refused ELSE DecVecN(PopF(V, st.level), 3, Tail(b)))
                                  ELSE IF b[1] = -1 THEN Ok(<<>>) ELSE Refused
         [] OTHER -> Refused
VCombine(V, ctx, param, st, shareBs) ==
  LET d == TLCEval([i \in 1..Len(shareBs) |-> VShareOf(V, st, shareBs[i])])
  IN  IF \A i \in 1..Len(d) : d[i].ok THEN TLCEval(VCombineD(V, ctx, param, [i \in 1..Len(d) |-> d[i].val])) ELSE Refused

\* One step of an aggregator: refused, or more rounds (state, encoded share), or done (output).
VNext(V, ctx, st, msgB) ==
  LET m == TLCEval(VMessageOf(V, st, msgB))
  IN  IF ~m.ok THEN Refused
      ELSE CASE V.kind = "prio3" ->
                  LET r == P3VerifyNext(V, st, m.val) IN IF r.ok THEN Ok([more |-> FALSE, out |-> r.val]) ELSE Refused
             [] V.kind = "poplar1" -> Ok(TLCEval(PopVerifyNext(V, st, m.val)))
             [] OTHER -> IF m.val[1] # ((st.round + st.tag + ToyHere(ctx, st.par)) % 256) \/ SubSeq(m.val, 2 + 2 * st.id, 3 + 2 * st.id) # st.inp THEN Refused
                         ELSE IF st.round = V.rounds THEN Ok([more |-> FALSE, out |-> st.inp])
                         ELSE LET s2 == [st EXCEPT !.round = @ + 1]
                              IN Ok([more |-> TRUE, state |-> s2, share |-> ToyShare(s2)])

VAggInit(V, param) == IF V.kind = "prio3" THEN P3AggInit(V) ELSE PopAggInit(V, param)
VAggField(V, param) == IF V.kind = "prio3" THEN P3F(V) ELSE PopF(V, param.level)
VMerge(V, param, aggs) == IF V.kind = "prio3" THEN P3Merge(V, aggs) ELSE PopMerge(V, param, aggs)
VUnshard(V, param, aggs) == IF V.kind = "prio3" THEN P3Unshard(V, aggs) ELSE PopUnshard(V, param, aggs)
VIsValid(V, param, prev) == IF V.kind = "prio3" THEN P3IsValid(V, param, prev) ELSE PopIsValid(V, param, prev)
VIdeal(V, param, ms) == IF V.kind = "prio3" THEN P3Ideal(V, ms) ELSE PopIdeal(V, param, ms)
VValidMeas(V, m) ==
  CASE V.kind = "prio3" -> ValidMeas(V.circuit, m)
    [] V.kind = "poplar1" -> Len(m) = V.bits
    [] OTHER -> TRUE
=============================================================================
