-------------------------------- MODULE Idpf --------------------------------
(***************************************************************************)
(* The incremental distributed point function.  An instance has a number   *)
(* of levels (bits) and a value length vl.  Inner levels use F64, the last *)
(* one F255.  Levels are numbered from 0.  A public share is a sequence of *)
(* correction words [seed, ctrl (two bits), w].                            *)
(***************************************************************************)
EXTENDS Xof

LevelField(bits, level) == IF level < bits - 1 THEN F64 ELSE F255
IdpfXof(bits, level, seed, usage, ctx, nonce) ==
  LET dst == Dst(1, <<0, 0, 0, 0>>, usage) \o ctx
  IN  IF level < bits - 1 THEN FixedKeyAes(seed, dst, nonce) ELSE Turbo(seed, dst, nonce)

Levels(n) == TLCEval([i \in 1..n |-> i - 1])
ClearBit(s) == [s EXCEPT ![1] = @ - (@ % 2)]
\* The two children of a node: seeds (with the lowest bit cleared) and control bits.
Extend(bits, level, seed, ctx, nonce) ==
  LET b == TLCEval(Stream(IdpfXof(bits, level, seed, 0, ctx, nonce), 32))
      l == SubSeq(b, 1, 16)
      r == SubSeq(b, 17, 32)
  IN  TLCEval([s |-> <<ClearBit(l), ClearBit(r)>>, t |-> <<l[1] % 2, r[1] % 2>>])
Convert(bits, vl, level, seed, ctx, nonce) ==
  LET x == IdpfXof(bits, level, seed, 1, ctx, nonce)
  IN  TLCEval([seed |-> Stream(x, 16), w |-> NextVec(x, LevelField(bits, level), 16, vl).vec])
XorIf(c, a, b) == IF c = 1 THEN XorB(a, b) ELSE a
BitXor(a, b) == (a + b) % 2

\* One level of key generation, from the parties' nodes <<[seed, ctrl], [seed, ctrl]>>.
GenLevel(bits, vl, level, bit, beta, nodes, ctx, nonce) ==
  LET F == LevelField(bits, level)
      e == TLCEval([p \in 1..2 |-> Extend(bits, level, nodes[p].seed, ctx, nonce)])
      keep == bit + 1
      lose == 2 - bit
      scw == XorB(e[1].s[lose], e[2].s[lose])
      ccw == << BitXor(BitXor(e[1].t[1], e[2].t[1]), 1 - bit), BitXor(BitXor(e[1].t[2], e[2].t[2]), bit) >>
      nx == TLCEval([p \in 1..2 |->
              [x |-> XorIf(nodes[p].ctrl, e[p].s[keep], scw),
               c |-> BitXor(e[p].t[keep], nodes[p].ctrl * ccw[keep])]])
      cv == TLCEval([p \in 1..2 |-> Convert(bits, vl, level, nx[p].x, ctx, nonce)])
      w0 == VAdd(F, VSub(F, beta, cv[1].w), cv[2].w)
      w  == IF nx[2].c = 1 THEN VNeg(F, w0) ELSE w0
  IN  TLCEval([word |-> [seed |-> scw, ctrl |-> ccw, w |-> TLCEval(w)],
               nodes |-> [p \in 1..2 |-> [seed |-> cv[p].seed, ctrl |-> nx[p].c]]])
GenFrom(bits, vl, alpha, betas, nodes, ctx, nonce) ==
  FoldLeft(LAMBDA a, l :
             LET g == GenLevel(bits, vl, l, alpha[l + 1], betas[l + 1], a.nodes, ctx, nonce)
             IN  TLCEval([words |-> Append(a.words, g.word), nodes |-> g.nodes]),
           [words |-> <<>>, nodes |-> nodes], Levels(bits)).words
\* betas: one value (vector of vl elements) per level.
IdpfGen(bits, vl, alpha, betas, ctx, nonce, rand) ==
  LET keys == <<SubSeq(rand, 1, 16), SubSeq(rand, 17, 32)>>
      nodes == [p \in 1..2 |-> [seed |-> keys[p], ctrl |-> p - 1]]
  IN  [public |-> TLCEval(GenFrom(bits, vl, alpha, betas, nodes, ctx, nonce)), keys |-> keys]

\* A party's value at a prefix: walk down from its key.
EvalStep(bits, vl, level, bit, node, word, ctx, nonce) ==
  LET F == LevelField(bits, level)
      e == Extend(bits, level, node.seed, ctx, nonce)
      s == XorIf(node.ctrl, e.s[bit + 1], word.seed)
      c == BitXor(e.t[bit + 1], node.ctrl * word.ctrl[bit + 1])
      cv == Convert(bits, vl, level, s, ctx, nonce)
  IN  TLCEval([seed |-> cv.seed, ctrl |-> c, y |-> IF c = 1 THEN VAdd(F, cv.w, word.w) ELSE cv.w])
EvalFrom(bits, vl, prefix, node, public, ctx, nonce) ==
  FoldLeft(LAMBDA n, l : EvalStep(bits, vl, l, prefix[l + 1], n, public[l + 1], ctx, nonce), node, Levels(Len(prefix))).y
IdpfEval1(bits, vl, id, public, key, prefix, ctx, nonce) ==
  LET y == EvalFrom(bits, vl, prefix, [seed |-> key, ctrl |-> id], public, ctx, nonce)
      F == LevelField(bits, Len(prefix) - 1)
  IN  TLCEval(IF id = 1 THEN VNeg(F, y) ELSE y)
IdpfEvalOk(bits, id, level, prefixes) ==
  /\ id \in {0, 1}
  /\ level \in 0..(bits - 1)
  /\ \A i \in 1..Len(prefixes) : Len(prefixes[i]) = level + 1
  /\ IsInjective(prefixes)
IdpfEval(bits, vl, id, public, key, level, prefixes, ctx, nonce) ==
  IF ~IdpfEvalOk(bits, id, level, prefixes) THEN Refused
  ELSE Ok(TLCEval([i \in 1..Len(prefixes) |-> IdpfEval1(bits, vl, id, public, key, prefixes[i], ctx, nonce)]))

-----------------------------------------------------------------------------
(* Encoding of public shares: packed control bits, seeds, payloads.        *)
PackLsb(bs) ==
  TLCEval([k \in 1..CeilDiv(Len(bs), 8) |->
    FoldLeft(LAMBDA a, i : a + (IF 8 * (k - 1) + i <= Len(bs) THEN bs[8 * (k - 1) + i] * 2 ^ (i - 1) ELSE 0),
             0, <<1, 2, 3, 4, 5, 6, 7, 8>>)])
ByteBit(b, i) == (b \div 2 ^ i) % 2
EncIdpfPublic(bits, pub) ==
  PackLsb(Cat([i \in 1..bits |-> pub[i].ctrl])) \o Cat([i \in 1..bits |-> pub[i].seed])
    \o Cat([i \in 1..bits |-> EncVec(pub[i].w)])
IdpfPublicLen(bits, vl) == CeilDiv(2 * bits, 8) + 16 * bits + 8 * vl * (bits - 1) + 32 * vl
DecIdpfPublic(bits, vl, b) ==
  LET nc == CeilDiv(2 * bits, 8)
      cb == TLCEval([i \in 1..(8 * nc) |-> ByteBit(b[((i - 1) \div 8) + 1], (i - 1) % 8)])
      so == nc
      wo(i) == nc + 16 * bits + 8 * vl * (i - 1)
      w == TLCEval([i \in 1..bits |-> DecVec(LevelField(bits, i - 1),
              SubSeq(b, wo(i) + 1, wo(i) + vl * LevelField(bits, i - 1).size))])
  IN  IF Len(b) # IdpfPublicLen(bits, vl) THEN Refused
      ELSE IF \E i \in (2 * bits + 1)..(8 * nc) : cb[i] = 1 THEN Refused
      ELSE IF \E i \in 1..bits : ~w[i].ok THEN Refused
      ELSE Ok(TLCEval([i \in 1..bits |-> [seed |-> SubSeq(b, so + 16 * i - 15, so + 16 * i),
                                          ctrl |-> <<cb[2 * i - 1], cb[2 * i]>>,
                                          w |-> w[i].val]]))
=============================================================================
