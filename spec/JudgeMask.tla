----------------------------- MODULE JudgeMask ------------------------------
(***************************************************************************)
(* Shares reveal nothing on their own: conformance of sharding under equal *)
(* randomness and different measurements, and of additive sharing.         *)
(***************************************************************************)
EXTENDS Vdaf, JudgeFlp

Distinct(s) == Cardinality({s[i] : i \in 1..Len(s)}) = Len(s)
AllOk(reps) == \A r \in 1..Len(reps) : reps[r].out.ok
Outs(reps) == [r \in 1..Len(reps) |-> reps[r].out.val]
\* Do the vectors differ in every element?
Throughout(u, v) == Len(u) = Len(v) /\ \A i \in 1..Len(u) : u[i] # v[i]

\* Which seed of Prio3's randomness the k-th 32 bytes are: <<"helper", j>>, <<"blind", j>>, <<"prove", 0>>
P3Role(V, k) ==
  LET H == V.shares - 1
  IN  IF ~P3Joint(V) THEN (IF k <= H THEN <<"helper", k>> ELSE <<"prove", 0>>)
      ELSE IF k <= 2 * H THEN << IF k % 2 = 1 THEN "helper" ELSE "blind", (k + 1) \div 2 >>
      ELSE IF k = 2 * H + 1 THEN <<"blind", 0>> ELSE <<"prove", 0>>

Prio3Masks(ev) ==
  LET V == ev.v
      c == V.circuit
      F == CF(c)
      n == V.shares
      o == Outs(ev.reps)
      dec == TLCEval([r \in 1..Len(o) |-> [i \in 1..Len(o[r].inputs) |-> P3DecInput(V, i - 1, o[r].inputs[i])]])
      hs == TLCEval([j \in 1..(n - 1) |-> dec[1][j + 1].val.seed])
      masks == TLCEval([j \in 1..(n - 1) |-> P3HelperMeas(V, ev.ctx, j, hs[j])])
      pmasks == TLCEval([j \in 1..(n - 1) |-> P3HelperProofs(V, ev.ctx, j, hs[j])])
      common == MinOf(MeasLen(c), ProofLen(c) * V.proofs)
      add(v, ms) == FoldLeft(LAMBDA a, m : TLCEval(VAdd(F, a, m)), v, ms)
      seeds == hs \o (IF P3Joint(V) THEN [i \in 1..n |-> dec[1][i].val.blind] ELSE <<>>)
  IN
  IF ~AllOk(ev.reps) THEN <<"sharding refused">>
  ELSE IF \E r \in 1..Len(o) : Len(o[r].inputs) # n THEN <<"number of input shares">>
  ELSE IF \E r \in 1..Len(o), i \in 1..n : ~dec[r][i].ok THEN <<"input share is malformed">>
  ELSE IF \E r \in 2..Len(o), i \in 2..n : o[r].inputs[i] # o[1].inputs[i] THEN <<"a Helper's share depends on the measurement">>
  ELSE IF \E r \in 2..Len(o) : dec[r][1].val.blind # dec[1][1].val.blind THEN <<"the Leader's blind depends on the measurement">>
  ELSE IF ~Distinct(seeds) THEN <<"a seed is used twice">>
  ELSE IF \E i \in 1..Len(seeds) : seeds[i] \notin {SubSeq(ev.rand, 32 * k + 1, 32 * k + 32) : k \in 0..((Len(ev.rand) \div 32) - 1)}
  THEN <<"a seed is not taken from the randomness">>
  \* the fields are large
  ELSE IF \E r \in 1..Len(o) : ~Distinct(dec[r][1].val.meas \o dec[r][1].val.proofs) THEN <<"masked elements repeat">>
  ELSE IF ev.light THEN Fine
  ELSE FirstBad(<<
    Check("masks coincide", Distinct([x \in 1..(2 * (n - 1)) |->
      IF x % 2 = 1 THEN Take(masks[(x + 1) \div 2], common) ELSE Take(pmasks[x \div 2], common)])),
    Each(Len(o), LAMBDA r :
      LET e == TLCEval(add(dec[r][1].val.meas, masks))
          want == Contribution(c, ev.reps[r].m)
          full == P3ShardVec(V, ev.ctx, e, ev.nonce, ev.rand)
      IN  IF ~ValidEnc(c, e) \/ Truncate(c, e) # TLCEval([j \in 1..Len(want) |-> FOfNat(F, want[j])])
          THEN <<"the Leader's share is not the measurement minus the masks">>
          ELSE Check("the Leader's proof share is not the proof minus the masks", full.inputs[1] = o[r].inputs[1])) >>)

\* One seed of the randomness changed, everything else equal.
Prio3Flip(ev) ==
  LET V == ev.v
      role == P3Role(V, ev.seed)
      j == role[2]
      a == TLCEval([i \in 1..V.shares |-> P3DecInput(V, i - 1, ev.a.val.inputs[i]).val])
      b == TLCEval([i \in 1..V.shares |-> P3DecInput(V, i - 1, ev.b.val.inputs[i]).val])
      others(S) == \A i \in 1..V.shares : i \notin S => a[i] = b[i]
      what == <<"changing a seed does not change exactly what it should", role[1]>>
  IN  IF ~ev.a.ok \/ ~ev.b.ok THEN <<"sharding refused">>
      ELSE CASE role[1] = "helper" ->
                  Check(what, /\ others({1, j + 1})
                              /\ a[j + 1].seed # b[j + 1].seed /\ a[j + 1].blind = b[j + 1].blind
                              /\ a[1].blind = b[1].blind
                              /\ Throughout(a[1].meas, b[1].meas) /\ Throughout(a[1].proofs, b[1].proofs))
             [] role[1] = "blind" ->
                  Check(what, /\ others({1, j + 1})
                              /\ a[j + 1].blind # b[j + 1].blind
                              /\ (j = 0 \/ (a[j + 1].seed = b[j + 1].seed /\ a[1].blind = b[1].blind))
                              /\ a[1].meas = b[1].meas
                              /\ ev.a.val.public # ev.b.val.public)
             [] role[1] = "prove" ->
                  Check(what, /\ others({1})
                              /\ a[1].meas = b[1].meas /\ a[1].blind = b[1].blind
                              /\ a[1].proofs # b[1].proofs
                              /\ ev.a.val.public = ev.b.val.public)

\* Poplar1's input shares: key, correlation seed, correlated values.
PopParts(s) == [key |-> Take(s, 16), seed |-> SubSeq(s, 17, 48), corr |-> Drop(s, 48)]
PopMasks(ev) ==
  LET o == Outs(ev.reps) IN
  IF ~AllOk(ev.reps) THEN <<"sharding refused">>
  ELSE IF \E r \in 1..Len(o) : Len(o[r].inputs) # 2 THEN <<"number of input shares">>
  ELSE IF \E r \in 2..Len(o) : o[r].inputs # o[1].inputs THEN <<"an input share depends on the measurement">>
  ELSE IF ~Distinct([r \in 1..Len(o) |-> o[r].public]) THEN <<"the public share does not depend on the measurement">>
  ELSE LET p == [i \in 1..2 |-> PopParts(o[1].inputs[i])]
       IN  Check("a seed is used twice or not taken from the randomness",
                 /\ p[1].key = SubSeq(ev.rand, 1, 16) /\ p[2].key = SubSeq(ev.rand, 17, 32)
                 /\ p[1].seed = SubSeq(ev.rand, 33, 64) /\ p[2].seed = SubSeq(ev.rand, 65, 96)
                 /\ p[1].corr # p[2].corr)
\* Every correlated value changes with the seed that masks it: 8 bytes per inner value, 32 per leaf value.
CorrElems(V, corr) == Chunks(Take(corr, 16 * (V.bits - 1)), 8) \o Chunks(Drop(corr, 16 * (V.bits - 1)), 32)
PopFlip(ev) ==
  LET a == [i \in 1..2 |-> PopParts(ev.a.val.inputs[i])]
      b == [i \in 1..2 |-> PopParts(ev.b.val.inputs[i])]
      ch(i) == Throughout(CorrElems(ev.v, a[i].corr), CorrElems(ev.v, b[i].corr))
      k == ev.seed    \* 1, 2: keys; 3, 4: correlation seeds; 5: sharding
      what == <<"changing a seed does not change exactly what it should", k>>
      pub == ev.a.val.public # ev.b.val.public
  IN  IF ~ev.a.ok \/ ~ev.b.ok THEN <<"sharding refused">>
      ELSE IF k \in {1, 2} THEN Check(what, pub /\ a[3 - k] = b[3 - k] /\ a[k].key # b[k].key /\ a[k].seed = b[k].seed /\ a[k].corr = b[k].corr)
      ELSE IF k \in {3, 4}
      THEN Check(what, /\ ~pub /\ a[1].key = b[1].key /\ a[2].key = b[2].key
                       /\ a[k - 2].seed # b[k - 2].seed /\ a[5 - k].seed = b[5 - k].seed
                       /\ a[2].corr = b[2].corr /\ ch(1))
      ELSE Check(what, pub /\ ch(1) /\ ch(2) /\ \A i \in 1..2 : a[i].key = b[i].key /\ a[i].seed = b[i].seed)

\* Keys of the point function; correction words reveal no later level than their own.
IdpfMasks(ev) ==
  LET o == Outs(ev.reps)
      pub == TLCEval([r \in 1..Len(o) |-> DecIdpfPublic(ev.bits, ev.vl, o[r].public)])
      alike(r, q) == \* number of leading levels on which the programmed points agree
        LET d == {l \in 1..ev.bits : ev.reps[r].alpha[l] # ev.reps[q].alpha[l] \/ ev.reps[r].betas[l] # ev.reps[q].betas[l]}
        IN  IF d = {} THEN ev.bits ELSE (CHOOSE l \in d : \A m \in d : l <= m) - 1
  IN
  IF ~AllOk(ev.reps) THEN <<"key generation refused">>
  ELSE IF \E r \in 1..Len(o) : o[r].keys # << SubSeq(ev.rand, 1, 16), SubSeq(ev.rand, 17, 32) >> THEN <<"keys are not the randomness alone">>
  ELSE IF \E r \in 1..Len(o) : ~pub[r].ok THEN <<"public share is malformed">>
  ELSE Check("correction words do not depend on the point and values up to their level exactly",
             \A r, q \in 1..Len(o) :
               LET n == alike(r, q)
               IN  /\ \A l \in 1..n : pub[r].val[l] = pub[q].val[l]
                   /\ n < ev.bits => pub[r].val[n + 1] # pub[q].val[n + 1])

MaskCall(ev) ==
  CASE ev.op = "prio3" -> Prio3Masks(ev)
    [] ev.op = "flip" -> Prio3Flip(ev)
    [] ev.op = "poplar1" -> PopMasks(ev)
    [] ev.op = "popflip" -> PopFlip(ev)
    [] ev.op = "idpf" -> IdpfMasks(ev)
    [] ev.op = "additive" ->
         LET F == FieldOf(ev.field) IN
         IF ~ev.out.ok THEN <<"sharing fails", ev.out.err>>
         ELSE LET sh == ev.out.val IN
              IF Len(sh) # ev.n \/ \E i \in 1..Len(sh) : Len(sh[i]) # Len(ev.vec) THEN <<"number or length of shares">>
              ELSE FirstBad(<< Same("sum of the shares", SumVecs(F, sh), ev.vec),
                               \* the field is large
                               Check("shares coincide", ~ev.large \/ ev.n = 1 \/ Len(ev.vec) = 0 \/
                                 \A e \in 1..Len(ev.vec) : Distinct(<<ev.vec[e]>> \o [i \in 1..Len(sh) |-> sh[i][e]])) >>)
    \* tables: for each secret, the shares at some positions for every choice of randomness
    [] ev.op = "dist" ->
         Each(Len(ev.tables), LAMBDA s :
           LET tab == ev.tables[s]
           IN  Check("the shares at these positions are not uniform",
                     Len(tab) = ev.total /\ Cardinality({tab[k] : k \in 1..Len(tab)}) = Len(tab)))
    \* enough sharings of one secret show every combination of all shares but one
    [] ev.op = "cover" ->
         Check("combinations of shares never occur", Cardinality({ev.views[k] : k \in 1..Len(ev.views)}) = ev.total)
    \* random elements: none repeats, and both halves of the field occur
    [] ev.op = "randvec" ->
         LET F == FieldOf(ev.field)
             half == {k \in 1..Len(ev.vec) : BLess(BAdd(ev.vec[k], ev.vec[k]), F.mod)}
         IN  FirstBad(<< Check("not elements", \A k \in 1..Len(ev.vec) : IsElem(F, ev.vec[k])),
                         Check("number of random elements", Len(ev.vec) = ev.n),
                         Check("random elements repeat", Distinct(ev.vec)),
                         Check("random elements are biased", half # {} /\ Cardinality(half) < Len(ev.vec)) >>)
=============================================================================
