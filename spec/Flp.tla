-------------------------------- MODULE Flp ---------------------------------
(***************************************************************************)
(* Validity circuits and the fully linear proof system built on them.      *)
(*                                                                         *)
(* A circuit is a record with fields                                       *)
(*   name   - "Count", "Sum", "SumVec", "Histogram", "Multihot", or one of *)
(*            the circuits that exercise the generic proof system:         *)
(*            "Poly" (one polynomial gadget), "Chain" (two gadgets, the    *)
(*            second fed with outputs of the first), "PolySum" (a parallel *)
(*            sum of polynomial gadgets), "Dag" (any gadgets, called by a  *)
(*            program on affine forms of measurement, joint randomness and *)
(*            outputs of earlier calls)                                    *)
(*   field  - name of the field                                            *)
(*   length, chunk - integers (1 where meaningless)                        *)
(*   max    - natural: largest measurement or weight                       *)
(*   poly   - sequence of integer coefficients (gadget of "Poly" etc.)     *)
(* and for a "Dag", besides: gadgets, prog (the calls: gadget and input    *)
(* forms) and outs (the output forms).  A form is a sequence of terms.     *)
(* Integers (measurements, parameters) that may be large are naturals: LE  *)
(* byte sequences; a leading -1 marks a negative number.                   *)
(***************************************************************************)
EXTENDS Xof, FiniteSets, Folds

IsNeg(x) == x # <<>> /\ x[1] = -1
NatLe(x, y) == ~BLess(y, x)
CF(c) == FieldOf(c.field)
SFInt(F, n) == IF n < 0 THEN FNeg(F, FInt(F, -n)) ELSE FInt(F, n)
MaxBits(c) == BBits(c.max)

-----------------------------------------------------------------------------
(* Gadgets. *)
\* A polynomial without its leading zero coefficients.
WithoutZeros(p) == LET nz == {i \in 1..Len(p) : p[i] # 0} IN IF nz = {} THEN p ELSE SubSeq(p, 1, CHOOSE i \in nz : \A j \in nz : j <= i)
GMulG == [kind |-> "mul", arity |-> 2, deg |-> 2, count |-> 1, poly |-> <<0>>]
GPoly(p) == [kind |-> "poly", arity |-> 1, deg |-> Len(WithoutZeros(p)) - 1, count |-> 1, poly |-> p]
GParMul(n) == [kind |-> "parmul", arity |-> 2 * n, deg |-> 2, count |-> n, poly |-> <<0>>]
GParPoly(p, n) == [kind |-> "parpoly", arity |-> n, deg |-> Len(WithoutZeros(p)) - 1, count |-> n, poly |-> p]

FPoly(F, p) == TLCEval([i \in 1..Len(p) |-> SFInt(F, p[i])])
GadgetEval(F, g, inp) ==
  CASE g.kind = "mul" -> FMul(F, inp[1], inp[2])
    [] g.kind = "poly" -> VAt(F, FPoly(F, g.poly), inp[1])
    [] g.kind = "parmul" -> VDot(F, [i \in 1..g.count |-> inp[2 * i - 1]], [i \in 1..g.count |-> inp[2 * i]])
    [] g.kind = "parpoly" -> LET q == FPoly(F, g.poly) IN VSum(F, [i \in 1..g.count |-> VAt(F, q, inp[i])])

-----------------------------------------------------------------------------
(* Range-checked integers: bits of value, the last one weighted so that   *)
(* exactly the integers in [0, max] are representable.                     *)
LastWeight(mx) == BSub(mx, BSub(Pow2B(BBits(mx) - 1), <<1>>))
RangeWeights(F, mx) ==
  TLCEval([i \in 1..BBits(mx) |-> IF i < BBits(mx) THEN FOfNat(F, Pow2B(i - 1)) ELSE FOfNat(F, LastWeight(mx))])
EncInt(F, v, mx) ==
  LET n    == BBits(mx)
      ones == BSub(Pow2B(n - 1), <<1>>)
      low  == NatLe(v, ones)
      rest == IF low THEN v ELSE BSub(v, LastWeight(mx))
  IN  TLCEval([i \in 1..n |-> IF i < n THEN FInt(F, BBit(rest, i - 1)) ELSE FInt(F, IF low THEN 0 ELSE 1)])
DecInt(F, bits, mx) == VDot(F, bits, RangeWeights(F, mx))

-----------------------------------------------------------------------------
(* Shape of the circuits. *)
MeasLen(c) ==
  CASE c.name = "Count" -> 1
    [] c.name = "Sum" -> MaxBits(c)
    [] c.name = "SumVec" -> c.length * MaxBits(c)
    [] c.name = "Histogram" -> c.length
    [] c.name = "Multihot" -> c.length + MaxBits(c)
    [] c.name \in {"Poly", "PolySum", "Dag"} -> c.length
    [] c.name = "Chain" -> 2 * c.length
Gadgets(c) ==
  CASE c.name = "Count" -> <<GMulG>>
    [] c.name = "Sum" -> <<GPoly(<<0, -1, 1>>)>>
    [] c.name \in {"SumVec", "Histogram", "Multihot"} -> <<GParMul(c.chunk)>>
    [] c.name = "Poly" -> <<GPoly(c.poly)>>
    [] c.name = "PolySum" -> <<GParPoly(c.poly, c.chunk)>>
    [] c.name = "Chain" -> <<GMulG, GPoly(c.poly)>>
    [] c.name = "Dag" ->
         TLCEval([k \in 1..Len(c.gadgets) |->
           LET g == c.gadgets[k] IN
           CASE g.kind = "mul" -> GMulG
             [] g.kind = "poly" -> GPoly(g.poly)
             [] g.kind = "parmul" -> GParMul(g.count)
             [] g.kind = "parpoly" -> GParPoly(g.poly, g.count)])
Calls(c) ==
  CASE c.name = "Count" -> <<1>>
    [] c.name = "Sum" -> <<MaxBits(c)>>
    [] c.name \in {"SumVec", "Histogram", "Multihot", "PolySum"} -> <<CeilDiv(MeasLen(c), c.chunk)>>
    [] c.name = "Poly" -> <<c.length>>
    [] c.name = "Chain" -> <<c.length, c.length>>
    [] c.name = "Dag" -> TLCEval([k \in 1..Len(c.gadgets) |-> Cardinality({s \in 1..Len(c.prog) : c.prog[s].g = k})])
JointRandLen(c) ==
  CASE c.name \in {"SumVec", "Histogram", "Multihot"} -> Calls(c)[1]
    [] c.name = "Chain" -> 1
    [] c.name = "Dag" -> c.chunk
    [] OTHER -> 0
EvalOutLen(c) ==
  CASE c.name = "Sum" -> MaxBits(c)
    [] c.name \in {"Histogram", "Multihot"} -> 2
    [] c.name = "Poly" -> c.length
    [] c.name = "Dag" -> Len(c.outs)
    [] OTHER -> 1
OutputLen(c) ==
  CASE c.name \in {"Count", "Sum"} -> 1
    [] c.name = "Chain" -> 2 * c.length
    [] OTHER -> c.length

-----------------------------------------------------------------------------
(* Measurements.  A measurement is a sequence of naturals (one for the     *)
(* scalar types).                                                          *)
ValidMeas(c, m) ==
  CASE c.name = "Count" -> Len(m) = 1 /\ ~IsNeg(m[1]) /\ BLess(m[1], <<2>>)
    [] c.name = "Sum" -> Len(m) = 1 /\ ~IsNeg(m[1]) /\ NatLe(m[1], c.max)
    [] c.name = "SumVec" -> Len(m) = c.length /\ \A i \in 1..Len(m) : ~IsNeg(m[i]) /\ NatLe(m[i], c.max)
    [] c.name = "Histogram" -> Len(m) = 1 /\ ~IsNeg(m[1]) /\ BLess(m[1], Nat2B(c.length))
    [] c.name = "Multihot" ->
         /\ Len(m) = c.length
         /\ \A i \in 1..Len(m) : ~IsNeg(m[i]) /\ BLess(m[i], <<2>>)
         /\ NatLe(Nat2B(Cardinality({i \in 1..Len(m) : BNorm(m[i]) = <<1>>})), c.max)
    [] OTHER -> Len(m) = MeasLen(c) /\ \A i \in 1..Len(m) : ~IsNeg(m[i]) /\ BLess(m[i], CF(c).mod)
EncodeMeas(c, m) ==
  LET F == CF(c) IN
  CASE c.name = "Count" -> <<FOfNat(F, m[1])>>
    [] c.name = "Sum" -> EncInt(F, m[1], c.max)
    [] c.name = "SumVec" -> Cat([i \in 1..c.length |-> EncInt(F, m[i], c.max)])
    [] c.name = "Histogram" -> TLCEval([i \in 1..c.length |-> FInt(F, IF B2Nat(m[1]) = i - 1 THEN 1 ELSE 0)])
    [] c.name = "Multihot" ->
         TLCEval([i \in 1..c.length |-> FOfNat(F, m[i])])
           \o EncInt(F, Nat2B(Cardinality({i \in 1..Len(m) : BNorm(m[i]) = <<1>>})), c.max)
    [] OTHER -> TLCEval([i \in 1..Len(m) |-> FOfNat(F, m[i])])
Truncate(c, e) ==
  LET F == CF(c) IN
  CASE c.name = "Sum" -> <<DecInt(F, e, c.max)>>
    [] c.name = "SumVec" -> LET ch == Chunks(e, MaxBits(c)) IN TLCEval([i \in 1..c.length |-> DecInt(F, ch[i], c.max)])
    [] c.name = "Multihot" -> Take(e, c.length)
    [] OTHER -> e
\* The aggregate result of an aggregated output: naturals.
DecodeAgg(c, out) == TLCEval([i \in 1..Len(out) |-> BNorm(out[i])])
\* What a valid measurement contributes to the aggregate: naturals.
Contribution(c, m) ==
  CASE c.name = "Histogram" -> TLCEval([i \in 1..c.length |-> IF B2Nat(m[1]) = i - 1 THEN <<1>> ELSE <<>>])
    [] OTHER -> TLCEval([i \in 1..Len(m) |-> BNorm(m[i])])
\* The encodings that the circuit is meant to accept.
ValidEnc(c, e) ==
  LET F == CF(c)
      one == FOne(F)
      bit(x) == x = FZero(F) \/ x = one
  IN  CASE c.name \in {"Count", "Sum", "SumVec"} -> \A i \in 1..Len(e) : bit(e[i])
        [] c.name = "Histogram" -> /\ \A i \in 1..Len(e) : bit(e[i])
                                   /\ Cardinality({i \in 1..Len(e) : e[i] = one}) = 1
        [] c.name = "Multihot" ->
             /\ \A i \in 1..Len(e) : bit(e[i])
             /\ FInt(F, Cardinality({i \in 1..c.length : e[i] = one})) = DecInt(F, Drop(e, c.length), c.max)
        [] c.name = "Poly" -> \A i \in 1..Len(e) : VAt(F, FPoly(F, c.poly), e[i]) = FZero(F)
        [] OTHER -> TRUE

-----------------------------------------------------------------------------
(* Evaluation.  GadgetIn(c, k, ...) is the sequence of inputs of the calls *)
(* of the k-th gadget; outs holds the outputs of the calls of the earlier  *)
(* ones.  CircuitOut is the circuit's output given all gadget outputs.     *)
(* ns is the number of shares the measurement is split in.                 *)
BitCheckIn(c, meas, jr, ns) ==
  LET F == CF(c)
      si == FInv(F, FInt(F, ns))
      at(i) == IF i <= Len(meas) THEN meas[i] ELSE FZero(F)
      call(k) ==
        LET rp == TLCEval(VPowers(F, jr[k], c.chunk + 1))
        IN  TLCEval([x \in 1..(2 * c.chunk) |->
              LET j == (x + 1) \div 2
                  m == at((k - 1) * c.chunk + j)
              IN  IF x % 2 = 1 THEN FMul(F, rp[j + 1], m) ELSE FSub(F, m, si)])
  IN  TLCEval([k \in 1..Calls(c)[1] |-> call(k)])
GadgetIn(c, k, meas, jr, ns, outs) ==
  LET F == CF(c) IN
  CASE c.name = "Count" -> <<<<meas[1], meas[1]>>>>
    [] c.name \in {"Sum", "Poly"} -> TLCEval([i \in 1..Len(meas) |-> <<meas[i]>>])
    [] c.name \in {"SumVec", "Histogram", "Multihot"} -> BitCheckIn(c, meas, jr, ns)
    [] c.name = "PolySum" ->
         TLCEval([k2 \in 1..Calls(c)[1] |->
           TLCEval([j \in 1..c.chunk |->
              LET i == (k2 - 1) * c.chunk + j IN IF i <= Len(meas) THEN meas[i] ELSE FZero(F)])])
    [] c.name = "Chain" ->
         IF k = 1 THEN TLCEval([i \in 1..c.length |-> <<meas[2 * i - 1], meas[2 * i]>>])
         ELSE TLCEval([i \in 1..c.length |-> <<FAdd(F, outs[1][i], FMul(F, jr[1], meas[i]))>>])
\* Value of an affine form; flat holds the outputs of the calls so far, in order.  The
\* constant is split over the shares.
FormVal(F, form, meas, jr, si, flat) ==
  LET term(t) ==
        FMul(F, t.co, CASE t.k = "const" -> si
                        [] t.k = "meas" -> meas[t.i]
                        [] t.k = "jr" -> FMul(F, jr[t.j], si)
                        [] t.k = "jm" -> FMul(F, jr[t.j], meas[t.i])
                        [] t.k = "out" -> flat[t.i])
  IN  FoldLeft(LAMBDA a, t : FAdd(F, a, term(t)), FZero(F), form)
CircuitOut(c, meas, jr, ns, outs) ==
  LET F == CF(c)
      si == FInv(F, FInt(F, ns))
  IN  CASE c.name = "Count" -> <<FSub(F, outs[1][1], meas[1])>>
        [] c.name \in {"Sum", "Poly"} -> outs[1]
        [] c.name = "SumVec" -> <<VSum(F, outs[1])>>
        [] c.name = "Histogram" -> <<VSum(F, outs[1]), FSub(F, VSum(F, meas), si)>>
        [] c.name = "Multihot" -> <<VSum(F, outs[1]),
                                    FSub(F, VSum(F, Take(meas, c.length)), DecInt(F, Drop(meas, c.length), c.max))>>
        [] c.name = "PolySum" -> <<VSum(F, outs[1])>>
        [] c.name = "Chain" -> <<VSum(F, outs[2])>>
        [] c.name = "Dag" ->
             LET nth(s) == Cardinality({q \in 1..s : c.prog[q].g = c.prog[s].g})
                 flat == TLCEval([s \in 1..Len(c.prog) |-> outs[c.prog[s].g][nth(s)]])
             IN  TLCEval([i \in 1..Len(c.outs) |-> FormVal(F, c.outs[i], meas, jr, si, flat)])

\* All gadget inputs and outputs when the i-th call of gadget k has output ge(k, i, input).
RECURSIVE RunRegular(_, _, _, _, _, _)
RunRegular(c, meas, jr, ns, ge(_, _, _), acc) ==
  LET k == Len(acc.outs) + 1 IN
  IF k > Len(Gadgets(c)) THEN acc
  ELSE LET ins == TLCEval(GadgetIn(c, k, meas, jr, ns, acc.outs))
           os  == TLCEval([i \in 1..Len(ins) |-> ge(k, i, ins[i])])
       IN  RunRegular(c, meas, jr, ns, ge, [ins |-> Append(acc.ins, ins), outs |-> Append(acc.outs, os)])
RunDag(c, meas, jr, ns, ge(_, _, _)) ==
  LET F == CF(c)
      si == FInv(F, FInt(F, ns))
      none == [k \in 1..Len(c.gadgets) |-> <<>>]
      step(a, s) ==
        LET k  == c.prog[s].g
            in == TLCEval([j \in 1..Len(c.prog[s].ins) |-> FormVal(F, c.prog[s].ins[j], meas, jr, si, a.flat)])
            o  == TLCEval(ge(k, Len(a.ins[k]) + 1, in))
        IN  TLCEval([ins |-> [a.ins EXCEPT ![k] = Append(@, in)], outs |-> [a.outs EXCEPT ![k] = Append(@, o)], flat |-> Append(a.flat, o)])
      end == FoldLeft(step, [ins |-> none, outs |-> none, flat |-> <<>>], [s \in 1..Len(c.prog) |-> s])
  IN  [ins |-> end.ins, outs |-> end.outs]
RunGadgets(c, meas, jr, ns, ge(_, _, _), acc) ==
  IF c.name = "Dag" THEN RunDag(c, meas, jr, ns, ge) ELSE RunRegular(c, meas, jr, ns, ge, acc)
NoRun == [ins |-> <<>>, outs |-> <<>>]
\* Direct evaluation of the circuit on an unshared measurement.
EvalCircuit(c, meas, jr, ns) ==
  LET direct(k, i, in) == GadgetEval(CF(c), Gadgets(c)[k], in)
      run == RunGadgets(c, meas, jr, ns, direct, NoRun)
  IN  CircuitOut(c, meas, jr, ns, run.outs)

-----------------------------------------------------------------------------
(* The proof system. *)
WireLen(c, k) == NextPow2(1 + Calls(c)[k])
GadgetPolyLen(c, k) == Gadgets(c)[k].deg * (WireLen(c, k) - 1) + 1
SumOver(n, f(_)) == FoldLeft(LAMBDA a, k : a + f(k), 0, [k \in 1..n |-> k])
ProveRandLen(c) == SumOver(Len(Gadgets(c)), LAMBDA k : Gadgets(c)[k].arity)
QueryRandLen(c) == Len(Gadgets(c)) + (IF EvalOutLen(c) > 1 THEN EvalOutLen(c) ELSE 0)
ProofLen(c) == SumOver(Len(Gadgets(c)), LAMBDA k : Gadgets(c)[k].arity + GadgetPolyLen(c, k))
VerifierLen(c) == 1 + SumOver(Len(Gadgets(c)), LAMBDA k : Gadgets(c)[k].arity + 1)

\* The principal n-th root of unity (n a power of two): gen^(2^log / n).
RootOf(F, n) == FPow(F, F.gen, Pow2B(F.log - Log2(n)))

\* Coefficients of the polynomial of degree < n taking the n values ys at the powers of
\* the n-th root of unity (the inverse discrete Fourier transform, by definition).
CoeffsOf(F, ys) ==
  LET n  == Len(ys)
      w  == RootOf(F, n)
      wi == TLCEval(VPowers(F, FInv(F, w), n))
      ni == FInv(F, FInt(F, n))
  IN  TLCEval([k \in 1..n |-> FMul(F, ni, VAt(F, ys, wi[k]))])

\* Wire j of a gadget: the seed, then the inputs of the calls, then zeros.
Wires(F, g, p, seeds, ins) ==
  TLCEval([j \in 1..g.arity |->
    TLCEval(<<seeds[j]>> \o [i \in 1..Len(ins) |-> ins[i][j]] \o VZeros(F, p - 1 - Len(ins)))])

\* Start of the part of a vector that belongs to gadget k, given the lengths per gadget.
StartOf(k, len(_)) == SumOver(k - 1, len)

Prove(c, meas, pr, jr) ==
  LET F   == CF(c)
      gs  == Gadgets(c)
      direct(k, i, in) == GadgetEval(F, gs[k], in)
      run == RunGadgets(c, meas, jr, 1, direct, NoRun)
      part(k) ==
        LET g     == gs[k]
            p     == WireLen(c, k)
            L     == GadgetPolyLen(c, k)
            st    == StartOf(k, LAMBDA q : gs[q].arity)
            seeds == SubSeq(pr, st + 1, st + g.arity)
            wires == Wires(F, g, p, seeds, run.ins[k])
            co    == TLCEval([j \in 1..g.arity |-> CoeffsOf(F, wires[j])])
            xs    == TLCEval(VPowers(F, RootOf(F, NextPow2(L)), L))
        IN  seeds \o [i \in 1..L |-> GadgetEval(F, g, [j \in 1..g.arity |-> VAt(F, co[j], xs[i])])]
  IN  TLCEval(Cat([k \in 1..Len(gs) |-> TLCEval(part(k))]))

\* The part of a proof (share) for gadget k: wire seeds and gadget polynomial.
ProofStart(c, k) == StartOf(k, LAMBDA q : Gadgets(c)[q].arity + GadgetPolyLen(c, q))
ProofSeeds(c, proof, k) == SubSeq(proof, ProofStart(c, k) + 1, ProofStart(c, k) + Gadgets(c)[k].arity)
ProofPoly(c, proof, k) ==
  LET s == ProofStart(c, k) + Gadgets(c)[k].arity IN SubSeq(proof, s + 1, s + GadgetPolyLen(c, k))
\* Value at x of the polynomial of degree < L whose values at the first L powers of the
\* N-th root of unity are vals.
PolyThrough(F, vals, x) ==
  VInterp(F, VPowers(F, RootOf(F, NextPow2(Len(vals))), Len(vals)), vals, x)

\* Refused if a test point is one of the points of the wire polynomials.
Query(c, meas, proof, qr, jr, ns) ==
  LET F   == CF(c)
      gs  == Gadgets(c)
      el  == EvalOutLen(c)
      red == IF el > 1 THEN el ELSE 0
      \* output of the i-th call: the gadget polynomial at the i-th power of the p-th root
      viaProof(k, i, in) ==
        LET vals == ProofPoly(c, proof, k)
            L    == Len(vals)
            s    == NextPow2(L) \div WireLen(c, k)
            w    == RootOf(F, NextPow2(L))
        IN  IF i * s < L THEN vals[i * s + 1] ELSE PolyThrough(F, vals, FPow(F, w, Nat2B(i * s)))
      run == RunGadgets(c, meas, jr, ns, viaProof, NoRun)
      out == CircuitOut(c, meas, jr, ns, run.outs)
      v   == IF el > 1 THEN VDot(F, Take(qr, el), out) ELSE out[1]
      t(k) == qr[red + k]
      part(k) ==
        LET g  == gs[k]
            p  == WireLen(c, k)
            ws == Wires(F, g, p, ProofSeeds(c, proof, k), run.ins[k])
        IN  [j \in 1..g.arity |-> VAt(F, CoeffsOf(F, ws[j]), t(k))] \o <<PolyThrough(F, ProofPoly(c, proof, k), t(k))>>
  IN  IF \E k \in 1..Len(gs) : FPow(F, t(k), Nat2B(WireLen(c, k))) = FOne(F)
      THEN Refused
      ELSE Ok(TLCEval(<<v>> \o Cat([k \in 1..Len(gs) |-> TLCEval(part(k))])))

Decide(c, verifier) ==
  LET F  == CF(c)
      gs == Gadgets(c)
      st(k) == 1 + StartOf(k, LAMBDA q : gs[q].arity + 1)
  IN  /\ verifier[1] = FZero(F)
      /\ \A k \in 1..Len(gs) :
           GadgetEval(F, gs[k], SubSeq(verifier, st(k) + 1, st(k) + gs[k].arity)) = verifier[st(k) + gs[k].arity + 1]
=============================================================================
