---------------------------- MODULE JudgeParams -----------------------------
(***************************************************************************)
(* Conformance of constructors and of calls with sized arguments.          *)
(***************************************************************************)
EXTENDS Params, Judge

\* Constructors yield the sizes that the instance declares; sequences of naturals.
DeclaredSizes(c) ==
  LET d == Handed(c)
  IN  TLCEval([i \in 1..7 |-> Nat2B(<< MeasLen(d), OutputLen(d), JointRandLen(d), ProveRandLen(d), QueryRandLen(d),
                                       ProofLen(d), VerifierLen(d) >>[i])])
CircuitSizes(c, got) ==
  IF Handy(c) THEN Same("declared sizes of the circuit", got, DeclaredSizes(c))
  ELSE Check("declared sizes of the circuit", BNorm(got[1]) = BNorm(BigMeasLen(c)) /\ BNorm(got[2]) = BNorm(c.length))
Made(what, out, may, sizes(_)) ==
  IF ~may THEN Check(<<what, "with impermissible parameters is not refused">>, ~out.ok)
  ELSE IF ~out.ok THEN <<what, "with permissible parameters is refused", out.err>>
  ELSE sizes(out.val)
Accepted(what, ev, may) ==
  IF may THEN (IF ev.out.ok THEN Fine ELSE <<what, "refused arguments of the right sizes", ev.out.err>>)
  ELSE Check(<<what, "accepted an argument of the wrong size">>, ~ev.out.ok)
All(n, s) == \A i \in 1..Len(s) : s[i] = n

ParamCall(ev) ==
  CASE ev.op = "circuit" ->
         Made(ev.c.name, ev.out, CircuitPermitted(ev.c), LAMBDA v : CircuitSizes(ev.c, v))
    [] ev.op = "prio3" ->
         Made("Prio3", ev.out, CircuitPermitted(ev.c) /\ Prio3Permitted(ev.shares, ev.proofs), LAMBDA v :
           LET joint == ev.c.name \in {"SumVec", "Histogram", "Multihot"}
           IN  FirstBad(<< CircuitSizes(ev.c, v.lens),
                           Same("declared sizes of Prio3", v.sizes,
                                << B2Nat(ev.shares), 1, 16, 32, 32 * B2Nat(ev.shares) * (IF joint THEN 2 ELSE 1) >>),
                           Same("number of proofs", v.proofs, B2Nat(ev.proofs)),
                           Same("algorithm identifier", v.id, ev.id) >>))
    [] ev.op = "poplar1" ->
         Made("Poplar1", ev.out, PoplarPermitted(ev.bits), LAMBDA v :
           FirstBad(<< Same("declared sizes of Poplar1", v.sizes, <<2, 2, 16, 32, 128>>),
                       Same("algorithm identifier", v.id, <<0, 0, 0, 6>>) >>))
    [] ev.op = "idpf" ->
         Made("the point function", ev.out, IdpfPermitted(ev.vl, ev.bits), LAMBDA v :
           Same("declared sizes of the point function", v, << B2Nat(ev.bits), B2Nat(ev.vl), 2, 16, 16, 32 >>))
    [] ev.op = "polyeval" ->
         Made("the polynomial gadget", ev.out, Len(ev.poly) > 0, LAMBDA v :
           Check("arity or degree of the polynomial gadget",
                 v[1] = 1 /\ ((\A i \in 1..Len(ev.poly) : ev.poly[i] = 0) \/ v[2] = Len(Stripped(ev.poly)) - 1)))
    [] ev.op = "parallel" ->
         Made("the parallel sum gadget", ev.out, TRUE, LAMBDA v :
           Same("arity or degree of the parallel sum gadget", v, << ev.arity * ev.count, ev.deg >>))
    \* calls; arguments are given by their sizes
    [] ev.op = "shard" ->
         Accepted("shard", ev, /\ ev.nonce = 16
                               /\ ev.rand = (IF ev.v.kind = "prio3" THEN P3RandSize(ev.v) ELSE 128)
                               /\ ev.meas = (IF ev.v.kind = "prio3" THEN ev.meas ELSE ev.v.bits))
    [] ev.op = "shape" ->     \* sizes of what shard returns, encoded
         IF ~ev.out.ok THEN <<"shard refused arguments of the right sizes", ev.out.err>>
         ELSE LET V == ev.v
                  joint == P3Joint(V)
                  leader == CF(V.circuit).size * (MeasLen(V.circuit) + V.proofs * ProofLen(V.circuit))
                  wantInputs == [i \in 1..V.shares |-> (IF i = 1 THEN leader ELSE 32) + (IF joint THEN 32 ELSE 0)]
              IN  FirstBad(<< Same("size of the public share", ev.out.val.public, IF joint THEN 32 * V.shares ELSE 0),
                              Same("sizes of the input shares", ev.out.val.inputs, wantInputs) >>)
    [] ev.op = "gen" ->
         Accepted("key generation", ev,
           /\ ev.alpha = ev.bits /\ Len(ev.inner) = ev.bits - 1 /\ All(ev.vl, ev.inner) /\ ev.leaf = ev.vl
           /\ ev.nonce = 16 /\ ev.rand = 32)
    [] ev.op = "run" -> Accepted("execution", ev, ev.key = 32)
    [] ev.op = "seed" -> Accepted("expansion", ev, IF ev.xof = "aes" THEN ev.size = 16 ELSE ev.size < 256)
    [] ev.op = "gadget" ->    \* evaluation of a gadget of the given arity on that many inputs
         Accepted("gadget", ev, ev.n = ev.arity)
    [] ev.op = "gadgetpoly" ->
         Accepted("gadget on polynomials", ev, Len(ev.lens) = ev.arity /\ All(ev.lens[1], ev.lens))
    [] ev.op = "flp" ->
         LET c == ev.c IN
         Accepted(ev.fn, ev,
           CASE ev.fn = "prove" -> ev.sizes = << MeasLen(c), ProveRandLen(c), JointRandLen(c) >>
             [] ev.fn = "query" -> ev.sizes = << MeasLen(c), ProofLen(c), QueryRandLen(c), JointRandLen(c) >>
             [] ev.fn = "decide" -> ev.sizes = << VerifierLen(c) >>
             [] ev.fn = "eval" -> ev.sizes = << MeasLen(c), JointRandLen(c) >>)
=============================================================================
