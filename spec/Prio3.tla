------------------------------- MODULE Prio3 --------------------------------
(***************************************************************************)
(* Prio3.  An instance is a record                                         *)
(*   kind |-> "prio3", id (4 bytes), shares, proofs, circuit (see Flp)     *)
(* Every value that crosses an API boundary is its wire encoding.          *)
(***************************************************************************)
EXTENDS Flp

P3Joint(V) == JointRandLen(V.circuit) > 0
P3RandSize(V) == 32 * V.shares * (IF P3Joint(V) THEN 2 ELSE 1)
P3Tag(V, usage, ctx) == Dst(0, V.id, usage) \o ctx
\* The domain separation tag of the longest context must fit in two bytes of length.
CtxFits(ctx) == Len(ctx) + 8 < 65536
Byte(n) == <<n>>

P3F(V) == CF(V.circuit)
P3HelperMeas(V, ctx, j, seed) ==
  ExpandVec(Turbo(seed, P3Tag(V, 1, ctx), Byte(j)), P3F(V), MeasLen(V.circuit))
P3HelperProofs(V, ctx, j, seed) ==
  ExpandVec(Turbo(seed, P3Tag(V, 2, ctx), <<V.proofs, j>>), P3F(V), ProofLen(V.circuit) * V.proofs)
P3JointRands(V, ctx, seed) ==
  ExpandVec(Turbo(seed, P3Tag(V, 3, ctx), Byte(V.proofs)), P3F(V), JointRandLen(V.circuit) * V.proofs)
P3ProveRands(V, ctx, seed) ==
  ExpandVec(Turbo(seed, P3Tag(V, 4, ctx), Byte(V.proofs)), P3F(V), ProveRandLen(V.circuit) * V.proofs)
P3QueryRands(V, ctx, key, nonce) ==
  ExpandVec(Turbo(key, P3Tag(V, 5, ctx), Byte(V.proofs) \o nonce), P3F(V), QueryRandLen(V.circuit) * V.proofs)
P3JointSeed(V, ctx, parts) == DeriveSeed(Turbo(ZeroBytes(32), P3Tag(V, 6, ctx), Cat(parts)))
P3JointPart(V, ctx, j, blind, share, nonce) ==
  DeriveSeed(Turbo(blind, P3Tag(V, 7, ctx), Byte(j) \o nonce \o EncVec(share)))

SubAll(F, v, others) == FoldLeft(LAMBDA a, o : TLCEval(VSub(F, a, o)), v, others)
PartOf(v, i, n) == SubSeq(v, (i - 1) * n + 1, i * n)

(* Sharding of an encoded measurement (a vector, not necessarily valid).  The result holds *)
(* the public share and the input shares, encoded.                         *)
P3ShardVec(V, ctx, meas, nonce, rand) ==
  LET c  == V.circuit
      F  == P3F(V)
      jn == P3Joint(V)
      H  == V.shares - 1
      seeds == TLCEval(Chunks(rand, 32))
      hseed(j) == IF jn THEN seeds[2 * j - 1] ELSE seeds[j]
      blind(j) == IF j = 0 THEN seeds[2 * H + 1] ELSE seeds[2 * j]
      prove == IF jn THEN seeds[2 * H + 2] ELSE seeds[H + 1]
      hmeas == TLCEval([j \in 1..H |-> P3HelperMeas(V, ctx, j, hseed(j))])
      leader == SubAll(F, meas, hmeas)
      parts == IF jn THEN TLCEval([i \in 1..V.shares |->
                       P3JointPart(V, ctx, i - 1, blind(i - 1), IF i = 1 THEN leader ELSE hmeas[i - 1], nonce)])
               ELSE <<>>
      jrs == IF jn THEN TLCEval(P3JointRands(V, ctx, P3JointSeed(V, ctx, parts))) ELSE <<>>
      prs == TLCEval(P3ProveRands(V, ctx, prove))
      proofs == TLCEval(Cat([i \in 1..V.proofs |->
                  Prove(c, meas, PartOf(prs, i, ProveRandLen(c)), PartOf(jrs, i, JointRandLen(c)))]))
      lproofs == SubAll(F, proofs, TLCEval([j \in 1..H |-> P3HelperProofs(V, ctx, j, hseed(j))]))
  IN  [public |-> Cat(parts),
       inputs |-> TLCEval([i \in 1..V.shares |->
         IF i = 1 THEN EncVec(leader) \o EncVec(lproofs) \o (IF jn THEN blind(0) ELSE <<>>)
         ELSE hseed(i - 1) \o (IF jn THEN blind(i - 1) ELSE <<>>)])]
P3Shard(V, ctx, m, nonce, rand) ==
  IF Len(nonce) # 16 \/ Len(rand) # P3RandSize(V) \/ ~ValidMeas(V.circuit, m) \/ ~CtxFits(ctx) THEN Refused
  ELSE Ok(P3ShardVec(V, ctx, EncodeMeas(V.circuit, m), nonce, rand))

\* Decoding of messages.
P3DecPublic(V, b) ==
  IF Len(b) # (IF P3Joint(V) THEN 32 * V.shares ELSE 0) THEN Refused ELSE Ok(Chunks(b, 32))
P3DecInput(V, id, b) ==
  LET c == V.circuit
      F == P3F(V)
      bl == IF P3Joint(V) THEN 32 ELSE 0
      ml == MeasLen(c) * F.size
      pl == ProofLen(c) * V.proofs * F.size
  IN  IF id = 0
      THEN IF Len(b) # ml + pl + bl THEN Refused
           ELSE LET m == DecVec(F, Take(b, ml))
                    p == DecVec(F, SubSeq(b, ml + 1, ml + pl))
                IN  IF m.ok /\ p.ok THEN Ok([meas |-> m.val, proofs |-> p.val, blind |-> Drop(b, ml + pl)])
                    ELSE Refused
      ELSE IF Len(b) # 32 + bl THEN Refused ELSE Ok([seed |-> Take(b, 32), blind |-> Drop(b, 32)])
P3DecShare(V, b) ==
  LET F == P3F(V)
      vl == VerifierLen(V.circuit) * V.proofs * F.size
  IN  IF Len(b) # vl + (IF P3Joint(V) THEN 32 ELSE 0) THEN Refused
      ELSE LET v == DecVec(F, Take(b, vl))
           IN  IF v.ok THEN Ok([verifiers |-> v.val, part |-> Drop(b, vl)]) ELSE Refused
P3DecMessage(V, b) == IF Len(b) # (IF P3Joint(V) THEN 32 ELSE 0) THEN Refused ELSE Ok(b)
P3DecOut(V, b) == DecVecN(P3F(V), OutputLen(V.circuit), b)

(* An Aggregator's first step. The state is [out, seed]: its output share and the joint    *)
(* randomness seed that it expects to be confirmed (empty without joint randomness).       *)
P3VerifyInit(V, key, ctx, id, nonce, public, input) ==
  LET c   == V.circuit
      F   == P3F(V)
      jn  == P3Joint(V)
      ms  == IF id = 0 THEN input.meas ELSE TLCEval(P3HelperMeas(V, ctx, id, input.seed))
      ps  == IF id = 0 THEN input.proofs ELSE TLCEval(P3HelperProofs(V, ctx, id, input.seed))
      part == IF jn THEN TLCEval(P3JointPart(V, ctx, id, input.blind, ms, nonce)) ELSE <<>>
      seed == IF jn THEN TLCEval(P3JointSeed(V, ctx, [public EXCEPT ![id + 1] = part])) ELSE <<>>
      jrs == IF jn THEN TLCEval(P3JointRands(V, ctx, seed)) ELSE <<>>
      qrs == TLCEval(P3QueryRands(V, ctx, key, nonce))
      qs  == TLCEval([i \in 1..V.proofs |->
               Query(c, ms, PartOf(ps, i, ProofLen(c)), PartOf(qrs, i, QueryRandLen(c)),
                     PartOf(jrs, i, JointRandLen(c)), V.shares)])
  IN  IF ~CtxFits(ctx) \/ \E i \in 1..V.proofs : ~qs[i].ok THEN Refused
      ELSE Ok([state |-> [out |-> TLCEval(Truncate(c, ms)), seed |-> seed],
               share |-> EncVec(Cat([i \in 1..V.proofs |-> qs[i].val])) \o part])

(* Combination of the decoded verifier shares of all aggregators. *)
P3Combine(V, ctx, shares) ==
  LET c == V.circuit
      F == P3F(V)
      total == FoldLeft(LAMBDA a, s : TLCEval(VAdd(F, a, s.verifiers)),
                        VZeros(F, VerifierLen(c) * V.proofs), shares)
  IN  IF Len(shares) # V.shares \/ ~CtxFits(ctx) THEN Refused
      ELSE IF \E i \in 1..V.proofs : ~Decide(c, PartOf(total, i, VerifierLen(c))) THEN Refused
      ELSE Ok(IF P3Joint(V) THEN P3JointSeed(V, ctx, [i \in 1..Len(shares) |-> shares[i].part]) ELSE <<>>)

P3VerifyNext(V, state, msg) == IF msg # state.seed THEN Refused ELSE Ok(state.out)

P3AggInit(V) == VZeros(P3F(V), OutputLen(V.circuit))
P3AggUpdate(V, agg, out) == VAdd(P3F(V), agg, out)
P3Merge(V, aggs) == FoldLeft(LAMBDA a, s : VAdd(P3F(V), a, s), P3AggInit(V), aggs)
P3Unshard(V, aggs) == DecodeAgg(V.circuit, P3Merge(V, aggs))
\* The aggregate of a batch of (valid) measurements, straight from their definition.
P3Ideal(V, ms) ==
  LET F == P3F(V)
      add(a, m) == LET k == Contribution(V.circuit, m)
                   IN  TLCEval([i \in 1..Len(a) |-> FAdd(F, a[i], FOfNat(F, k[i]))])
  IN  DecodeAgg(V.circuit, FoldLeft(add, P3AggInit(V), ms))
\* A Prio3 report may be aggregated at most once.
P3IsValid(V, param, prev) == prev = <<>>
=============================================================================
