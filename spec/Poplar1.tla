------------------------------ MODULE Poplar1 -------------------------------
(***************************************************************************)
(* Poplar1.  An instance is a record kind |-> "poplar1", id, bits.         *)
(* Aggregation parameters are [level, prefixes]; prefixes and measurements *)
(* are sequences of bits.                                                  *)
(***************************************************************************)
EXTENDS Idpf, FiniteSets

PopTag(V, usage, ctx) == Dst(0, V.id, usage) \o ctx
PopRandSize == 32 + 3 * 32
PopCtxFits(ctx) == Len(ctx) + 8 < 65536

\* Correlated randomness of aggregator i for every level: expansions of its seed.
PopCorr(V, ctx, seed, i, nonce) ==
  [inner |-> TLCEval(ExpandVec(Turbo(seed, PopTag(V, 2, ctx), <<i>> \o nonce), F64, 3 * (V.bits - 1))),
   leaf  |-> TLCEval(ExpandVec(Turbo(seed, PopTag(V, 3, ctx), <<i>> \o nonce), F255, 3))]

(* The client's work.  betaOf(l, k) is the pair programmed at level l, where k is the        *)
(* authenticator; an honest client programs <<1, k>>.                                        *)
PopShardAs(V, ctx, alpha, nonce, rand, betaOf(_, _)) ==
  LET B == V.bits
      cs == <<SubSeq(rand, 33, 64), SubSeq(rand, 65, 96)>>
      x == Turbo(SubSeq(rand, 97, 128), PopTag(V, 1, ctx), nonce)
      ki == TLCEval(NextVec(x, F64, 0, B - 1))
      kl == TLCEval(NextVec(x, F255, ki.off, 1))
      K(l) == IF l < B - 1 THEN ki.vec[l + 1] ELSE kl.vec[1]
      betas == TLCEval([i \in 1..B |-> betaOf(i - 1, K(i - 1))])
      gen == IdpfGen(B, 2, alpha, betas, ctx, nonce, SubSeq(rand, 1, 32))
      c0 == PopCorr(V, ctx, cs[1], 0, nonce)
      c1 == PopCorr(V, ctx, cs[2], 1, nonce)
      offs(l) == IF l < B - 1 THEN VAdd(F64, SubSeq(c0.inner, 3 * l + 1, 3 * l + 3), SubSeq(c1.inner, 3 * l + 1, 3 * l + 3))
                 ELSE VAdd(F255, c0.leaf, c1.leaf)
      r1i == TLCEval(NextVec(x, F64, kl.off, 2 * (B - 1)))
      r1l == TLCEval(NextVec(x, F255, r1i.off, 2))
      corr1(l) == IF l < B - 1 THEN SubSeq(r1i.vec, 2 * l + 1, 2 * l + 2) ELSE r1l.vec
      AB(l) == LET F == LevelField(B, l)
                   o == TLCEval(offs(l))
                   a == o[1]
                   k == K(l)
               IN  << FSub(F, k, FMul(F, FInt(F, 2), a)),
                      FAdd(F, FSub(F, FAdd(F, FMul(F, a, a), o[2]), FMul(F, a, k)), o[3]) >>
      corr0(l) == VSub(LevelField(B, l), AB(l), corr1(l))
      share(i) == gen.keys[i] \o cs[i] \o
                  Cat([l \in 1..B |-> EncVec(IF i = 1 THEN corr0(l - 1) ELSE corr1(l - 1))])
  IN  [public |-> TLCEval(EncIdpfPublic(B, gen.public)), inputs |-> TLCEval(<<share(1), share(2)>>)]
PopShard(V, ctx, alpha, nonce, rand) ==
  IF Len(nonce) # 16 \/ Len(rand) # PopRandSize \/ Len(alpha) # V.bits \/ ~PopCtxFits(ctx) THEN Refused
  ELSE Ok(PopShardAs(V, ctx, alpha, nonce, rand, LAMBDA l, k : <<FOne(LevelField(V.bits, l)), k>>))
\* A client that programs d[l] and k * d[l] + e[l] at level l.
PopShardWith(V, ctx, alpha, nonce, rand, de) ==
  PopShardAs(V, ctx, alpha, nonce, rand, LAMBDA l, k :
    LET F == LevelField(V.bits, l)
        d == FOfNat(F, de.d[l + 1])
    IN  <<d, FAdd(F, FMul(F, k, d), FOfNat(F, de.e[l + 1]))>>)

-----------------------------------------------------------------------------
(* Admission of aggregation parameters. *)
LexLess(p, q) ==
  LET d == {i \in 1..MinOf(Len(p), Len(q)) : p[i] # q[i]}
      i == CHOOSE i \in d : \A j \in d : i <= j
  IN  IF d = {} THEN Len(p) < Len(q) ELSE p[i] < q[i]
Sorted(ps) == \A i \in 1..(Len(ps) - 1) : LexLess(ps[i], ps[i + 1])
PopIsValid(V, param, prev) ==
  /\ Sorted(param.prefixes)
  /\ prev # <<>> =>
       LET last == prev[Len(prev)]
           ps   == {last.prefixes[i] : i \in 1..Len(last.prefixes)}
       IN  /\ param.level > last.level
           /\ \A i \in 1..Len(param.prefixes) : Take(param.prefixes[i], last.level + 1) \in ps

-----------------------------------------------------------------------------
(* Encodings. *)
PackMsb(bs) ==
  TLCEval([k \in 1..CeilDiv(Len(bs), 8) |->
    FoldLeft(LAMBDA a, i : a + (IF 8 * (k - 1) + i <= Len(bs) THEN bs[8 * (k - 1) + i] * 2 ^ (8 - i) ELSE 0),
             0, <<1, 2, 3, 4, 5, 6, 7, 8>>)])
PopEncParam(V, p) ==
  IF p.level \notin 0..65535 \/ \E i \in 1..Len(p.prefixes) : Len(p.prefixes[i]) # p.level + 1 THEN Refused
  ELSE Ok(BE(p.level, 2) \o BE(Len(p.prefixes), 4) \o Cat([i \in 1..Len(p.prefixes) |-> PackMsb(p.prefixes[i])]))
PopDecParam(V, b) ==
  IF Len(b) < 6 \/ b[3] # 0 THEN Refused   \* more than 2^24 prefixes are never present
  ELSE LET level == OfBE(SubSeq(b, 1, 2))
           n == OfBE(SubSeq(b, 3, 6))
           w == CeilDiv(level + 1, 8)
           ch == TLCEval(Chunks(Drop(b, 6), w))
           bits(c) == TLCEval([i \in 1..(8 * w) |-> ByteBit(c[((i - 1) \div 8) + 1], 7 - ((i - 1) % 8))])
           all == TLCEval([i \in 1..n |-> bits(ch[i])])
       IN  IF n > Len(b) \/ Len(b) # 6 + n * w THEN Refused
           ELSE IF \E i \in 1..n : \E j \in (level + 2)..(8 * w) : all[i][j] = 1 THEN Refused
           ELSE Ok([level |-> level, prefixes |-> TLCEval([i \in 1..n |-> Take(all[i], level + 1)])])
PopDecPublic(V, b) == DecIdpfPublic(V.bits, 2, b)
PopInputLen(V) == 16 + 32 + 16 * (V.bits - 1) + 64
PopDecInput(V, b) ==
  LET n == 16 * (V.bits - 1)
      i == DecVec(F64, SubSeq(b, 49, 48 + n))
      l == DecVec(F255, SubSeq(b, 49 + n, 112 + n))
  IN  IF Len(b) # PopInputLen(V) THEN Refused
      ELSE IF ~i.ok \/ ~l.ok THEN Refused
      ELSE Ok([key |-> SubSeq(b, 1, 16), seed |-> SubSeq(b, 17, 48), inner |-> i.val, leaf |-> l.val])
PopF(V, level) == LevelField(V.bits, level)
PopDecShare(V, state, b) == DecVecN(PopF(V, state.level), IF state.round = 1 THEN 3 ELSE 1, b)
PopDecMessage(V, state, b) ==
  IF state.round = 1 THEN DecVecN(PopF(V, state.level), 3, b)
  ELSE IF b = <<>> THEN Ok(<<>>) ELSE Refused
PopDecOut(V, param, b) == DecVecN(PopF(V, param.level), Len(param.prefixes), b)

-----------------------------------------------------------------------------
(* Verification: two rounds. *)
\* A share of the sketch of a vector, under the challenge r and masked by abc.
SketchShare(F, abc, r, data, auth) ==
  << FAdd(F, abc[1], VDot(F, data, r)),
     FAdd(F, abc[2], VDot(F, data, TLCEval([i \in 1..Len(r) |-> FMul(F, r[i], r[i])]))),
     FAdd(F, abc[3], VDot(F, auth, r)) >>
\* A share of the second round: zero in total if the sketch is that of a good vector.
SketchNext(F, id, A, B, msg) ==
  LET d == FSub(F, FSub(F, FMul(F, msg[1], msg[1]), msg[2]), msg[3])
  IN  FAdd(F, FAdd(F, FMul(F, FInt(F, id), d), FMul(F, A, msg[1])), B)
\* The first step, given the evaluations ev of the point function at the prefixes.
PopSketch(V, key, ctx, id, param, nonce, input, ev) ==
  LET level == param.level
      n == Len(param.prefixes)
      F == PopF(V, level)
      abc == IF level < V.bits - 1
             THEN Drop(ExpandVec(Turbo(input.seed, PopTag(V, 2, ctx), <<id>> \o nonce), F64, 3 * level + 3), 3 * level)
             ELSE ExpandVec(Turbo(input.seed, PopTag(V, 3, ctx), <<id>> \o nonce), F255, 3)
      abcv == TLCEval(abc)
      ab == IF level < V.bits - 1 THEN SubSeq(input.inner, 2 * level + 1, 2 * level + 2) ELSE input.leaf
      r == TLCEval(ExpandVec(Turbo(key, PopTag(V, 4, ctx), nonce \o BE(level, 2)), F, n))
      data == TLCEval([i \in 1..n |-> ev.val[i][1]])
      auth == TLCEval([i \in 1..n |-> ev.val[i][2]])
  IN  IF ~PopCtxFits(ctx) THEN Refused
      ELSE IF ~ev.ok THEN Refused
      ELSE Ok([state |-> [round |-> 1, level |-> level, A |-> ab[1], B |-> ab[2], id |-> id, out |-> data],
               share |-> Cat(SketchShare(F, abcv, r, data, auth))])
PopVerifyInit(V, key, ctx, id, param, nonce, public, input) ==
  PopSketch(V, key, ctx, id, param, nonce, input,
            TLCEval(IdpfEval(V.bits, 2, id, public, input.key, param.level, param.prefixes, ctx, nonce)))
\* shares: decoded vectors of the two aggregators; which round they belong to is their length.
PopCombine(V, param, shares) ==
  LET F == PopF(V, param.level)
      s == VAdd(F, shares[1], shares[2])
  IN  IF Len(shares) # 2 THEN Refused
      ELSE IF Len(shares[1]) # Len(shares[2]) \/ Len(shares[1]) \notin {1, 3} THEN Refused
      ELSE IF Len(s) = 3 THEN Ok(EncVec(s))
      ELSE IF s[1] = FZero(F) THEN Ok(<<>>) ELSE Refused
\* msg: decoded message.
PopVerifyNext(V, st, msg) ==
  LET F == PopF(V, st.level)
      s == SketchNext(F, st.id, st.A, st.B, msg)
  IN  IF st.round = 1 THEN [more |-> TRUE, state |-> [st EXCEPT !.round = 2], share |-> TLCEval(s)]
      ELSE [more |-> FALSE, out |-> st.out]
PopAggInit(V, param) == VZeros(PopF(V, param.level), Len(param.prefixes))
PopMerge(V, param, aggs) == FoldLeft(LAMBDA a, s : VAdd(PopF(V, param.level), a, s), PopAggInit(V, param), aggs)
PopUnshard(V, param, aggs) == LET m == PopMerge(V, param, aggs) IN TLCEval([i \in 1..Len(m) |-> BNorm(m[i])])
\* How many of the measurements start with each prefix.
PopIdeal(V, param, ms) ==
  TLCEval([i \in 1..Len(param.prefixes) |->
    Nat2B(Cardinality({j \in 1..Len(ms) : Take(ms[j], param.level + 1) = param.prefixes[i]}))])
=============================================================================
