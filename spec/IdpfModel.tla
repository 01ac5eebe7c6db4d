----------------------------- MODULE IdpfModel ------------------------------
(***************************************************************************)
(* The point function: for every string, the parties' evaluations at every *)
(* prefix of every level sum to the programmed value on the path and to    *)
(* zero off it; and a tree walked level by level (each party's node being  *)
(* its state) keeps the parties' nodes equal off the path.                 *)
(***************************************************************************)
EXTENDS JudgeIdpf, IOUtils

Bits == atoi(IOEnv.BITS)
VL == atoi(IOEnv.VALUES)
Seeds == atoi(IOEnv.SEEDS)
Strings(n) == [1..n -> {0, 1}]
Rand(s) == TLCEval([i \in 1..32 |-> (s * 37 + i * i * 11 + i) % 256])
Ctx == <<1, 2, 3>>
Nonce(s) == TLCEval([i \in 1..16 |-> (s + 7 * i) % 256])
Beta(l, s) == TLCEval([j \in 1..VL |-> FInt(LevelField(Bits, l), (s + j + l) % 3)])
Gen(a, s) == IdpfGen(Bits, VL, a, [i \in 1..Bits |-> Beta(i - 1, s)], Ctx, Nonce(s), Rand(s))

VARIABLES alpha, seed, gen, prefix, nodes
vars == <<alpha, seed, gen, prefix, nodes>>
Init ==
  /\ alpha \in Strings(Bits)
  /\ seed \in 0..(Seeds - 1)
  /\ gen = Gen(alpha, seed)
  /\ prefix = <<>>
  /\ nodes = [p \in 1..2 |-> [seed |-> gen.keys[p], ctrl |-> p - 1, y |-> <<>>]]
Down(bit) ==
  /\ Len(prefix) < Bits
  /\ prefix' = Append(prefix, bit)
  /\ nodes' = [p \in 1..2 |-> EvalStep(Bits, VL, Len(prefix), bit, nodes[p], gen.public[Len(prefix) + 1], Ctx, Nonce(seed))]
  /\ UNCHANGED <<alpha, seed, gen>>
Next == \E bit \in {0, 1} : Down(bit)
Spec == Init /\ [][Next]_vars

OnPath == prefix = Take(alpha, Len(prefix))
F == LevelField(Bits, Len(prefix) - 1)
Total == VSub(F, nodes[1].y, nodes[2].y)
Correct == prefix # <<>> => Total = IF OnPath THEN Beta(Len(prefix) - 1, seed) ELSE VZeros(F, VL)
\* what makes it so: control bits differ exactly on the path; off it the seeds are equal
Invariant == IF OnPath THEN nodes[1].ctrl # nodes[2].ctrl
             ELSE nodes[1].ctrl = nodes[2].ctrl /\ nodes[1].seed = nodes[2].seed
\* the walk is what evaluation by definition yields
Agrees ==
  prefix # <<>> =>
    \A p \in 0..1 : IdpfEval1(Bits, VL, p, gen.public, gen.keys[p + 1], prefix, Ctx, Nonce(seed))
                      = IF p = 1 THEN VNeg(F, nodes[2].y) ELSE nodes[1].y
=============================================================================
