------------------------------ MODULE JudgeAlg ------------------------------
(***************************************************************************)
(* Conformance of field arithmetic, polynomials and XOFs.                  *)
(***************************************************************************)
EXTENDS Judge

\* An integer argument: natural magnitude and sign.
IntIn(F, neg, mag) ==
  IF ~BLess(mag, F.mod) THEN Refused
  ELSE Ok(IF neg THEN FNeg(F, BPad(mag, F.size)) ELSE BPad(mag, F.size))

FieldOp(ev) ==
  LET F == FieldOf(ev.field)
      n == Len(ev.out)
      x(i) == ev.xs[i]
      y(i) == ev.ys[i]
      one(i) ==
        CASE ev.op = "f.new" -> IntIn(F, ev.neg[i], ev.xs[i])
          [] ev.op = "f.add" -> Ok(FAdd(F, x(i), y(i)))
          [] ev.op = "f.sub" -> Ok(FSub(F, x(i), y(i)))
          [] ev.op = "f.mul" -> Ok(FMul(F, x(i), y(i)))
          [] ev.op = "f.div" -> Ok(FMul(F, x(i), FInv(F, y(i))))
          [] ev.op = "f.neg" -> Ok(FNeg(F, x(i)))
          [] ev.op = "f.inv" -> Ok(FInv(F, x(i)))
          [] ev.op = "f.pow" -> Ok(FPow(F, x(i), y(i)))
          [] ev.op = "f.eq"  -> Ok(x(i) = y(i))
          [] ev.op = "f.encvec" -> Ok(Cat(x(i)))
          [] ev.op = "f.decvec" -> DecVec(F, x(i))
          [] ev.op = "f.root" -> Ok(RootOf(F, 2 ^ x(i)))
          [] ev.op = "f.bigroot" -> Ok(FPow(F, F.gen, Pow2B(F.log - x(i))))
          [] ev.op = "f.roots" -> Ok(VPowers(F, RootOf(F, x(i)), x(i)))
          [] ev.op = "f.zeros" -> Ok(VZeros(F, x(i)))
          [] ev.op = "f.vecadd" -> IF Len(x(i)) = Len(y(i)) THEN Ok(VAdd(F, x(i), y(i))) ELSE Refused
          [] ev.op = "f.vecsub" -> IF Len(x(i)) = Len(y(i)) THEN Ok(VSub(F, x(i), y(i))) ELSE Refused
          [] ev.op = "f.vecneg" -> Ok(VNeg(F, x(i)))
  IN  Each(n, LAMBDA i : Match(ev.op, ev.out[i], TLCEval(one(i))))

\* What the code says about a field itself.
FieldParams(ev) ==
  LET F == FieldOf(ev.field)
  IN  FirstBad(<< Same("modulus", ev.mod, F.mod), Same("encoded size", ev.size, F.size),
                  IF ev.ntt THEN Same("generator", ev.gen, F.gen) ELSE Fine,
                  IF ev.ntt THEN Same("order", ev.order, Pow2B(F.log)) ELSE Fine >>)

PolyOp(ev) ==
  LET F == FieldOf(ev.field)
      r == ev.out
  IN  IF "before" \in DOMAIN ev /\ ev.after # ev.before THEN <<ev.op, "the caller's vectors were modified">> ELSE
      CASE ev.op = "p.strip" -> Match(ev.op, r, Ok(Strip(F, ev.p)))
        [] ev.op = "p.mul" -> IF r.ok THEN Same(ev.op, Strip(F, r.val), Strip(F, PolyMul(F, ev.p, ev.q))) ELSE <<ev.op, r.err>>
        [] ev.op = "p.add" -> IF r.ok THEN Same(ev.op, Strip(F, r.val), Strip(F, PolyAdd(F, ev.p, ev.q))) ELSE <<ev.op, r.err>>
        [] ev.op = "p.eval" -> Match(ev.op, r, Ok(VAt(F, ev.p, ev.x)))
        [] ev.op = "p.interp" -> IF r.ok THEN Check(ev.op, Interpolates(F, ev.xs, ev.ys, r.val)) ELSE <<ev.op, r.err>>
        [] ev.op = "p.ntt" -> Match(ev.op, r, Ok(Transform(F, ev.p, ev.n, ev.shifted)))
        [] ev.op = "p.intt" -> Match(ev.op, r, Ok(InverseTransform(F, ev.p, ev.n)))
        [] ev.op = "l.eval" -> Match(ev.op, r, Ok(LagEval(F, ev.p, ev.x)))
        [] ev.op = "l.evalbatch" -> Match(ev.op, r, Ok([i \in 1..Len(ev.ps) |-> LagEval(F, ev.ps[i], ev.x)]))
        [] ev.op = "l.mul" -> Match(ev.op, r, Ok(LagMul(F, ev.p, ev.q)))
        [] ev.op = "l.double" -> Match(ev.op, r, Ok(LagDouble(F, ev.p)))
        [] ev.op = "l.extend" -> Match(ev.op, r, Ok(LagExtend(F, ev.p, ev.n)))

\* Byte strings and integers.
\* The little-endian n-byte encoding of a number (a leading -1 marks a negative one).
IntBytes(x, n) == IF (x # <<>> /\ x[1] = -1) \/ Len(BNorm(x)) > n THEN Refused ELSE Ok(BPad(x, n))
BytesOp(ev) ==
  LET x(i) == ev.xs[i]
      y(i) == ev.ys[i]
      one(i) ==
        CASE ev.op = "b.xor" -> IF Len(x(i)) = Len(y(i)) THEN Ok(XorB(x(i), y(i))) ELSE Refused
          [] ev.op = "b.tole" -> IntBytes(x(i), y(i))
          [] ev.op = "b.tobe" -> LET b == IntBytes(x(i), y(i)) IN IF b.ok THEN Ok(Reverse(b.val)) ELSE Refused
          [] ev.op = "b.ofle" -> Ok(BNorm(x(i)))
          [] ev.op = "b.ofbe" -> Ok(BNorm(Reverse(x(i))))
          [] ev.op = "b.front" -> IF y(i) > Len(x(i)) THEN Refused
                                  ELSE Ok(<<SubSeq(x(i), 1, y(i)), SubSeq(x(i), y(i) + 1, Len(x(i)))>>)
          [] ev.op = "b.concat" -> Ok(Cat(x(i)))
          [] ev.op = "b.zeros" -> Ok([j \in 1..y(i) |-> 0])
  IN  Each(Len(ev.out), LAMBDA i : Match(ev.op, ev.out[i], TLCEval(one(i))))

\* XOF instances: the state holds the instance and how much of its stream was consumed.
XofInst(ev) == [kind |-> ev.kind, seed |-> ev.seed, dst |-> ev.dst, binder |-> ev.binder]
XofOp(st, ev) ==
  LET keep(v) == [bad |-> v, st |-> st] IN
  CASE ev.op = "x.new" ->
         LET x == XofInst(ev) IN
         [bad |-> IF ev.out.ok # XofAccepts(x) THEN <<"constructor", IF ev.out.ok THEN "accepted" ELSE "refused">> ELSE Fine,
          st |-> [x |-> x, off |-> 0]]
    [] ev.op = "x.next" ->
         [bad |-> Match(ev.op, ev.out, Ok(StreamFrom(st.x, st.off, ev.n))),
          st |-> [st EXCEPT !.off = @ + ev.n]]
    \* a read of which only the length is known
    [] ev.op = "x.skip" ->
         [bad |-> Match(ev.op, ev.out, Ok(ev.n)), st |-> [st EXCEPT !.off = @ + ev.n]]
    [] ev.op = "x.vec" ->
         LET r == TLCEval(NextVec(st.x, FieldOf(ev.field), st.off, ev.n)) IN
         [bad |-> Match(ev.op, ev.out, Ok(r.vec)), st |-> [st EXCEPT !.off = r.off]]
    [] ev.op = "x.derive" ->
         LET x == XofInst(ev) IN keep(Match(ev.op, ev.out, IF XofAccepts(x) THEN Ok(DeriveSeed(x)) ELSE Refused))
    [] ev.op = "x.expand" ->
         LET x == XofInst(ev)
         IN keep(Match(ev.op, ev.out, IF XofAccepts(x) THEN Ok(ExpandVec(x, FieldOf(ev.field), ev.n)) ELSE Refused))
=============================================================================
