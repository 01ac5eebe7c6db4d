------------------------------ MODULE SelfTest ------------------------------
(***************************************************************************)
(* Compares the Java evaluation of Prim with the definitions in PrimDef,   *)
(* and both primitives with published values.                              *)
(***************************************************************************)
EXTENDS Prim, Fields, IOUtils
D == INSTANCE PrimDef

Seed == atoi(IOEnv.VERIF_SEED)
\* A deterministic pseudo-random byte (period is irrelevant here).
Rb(i, j) == (((Seed % 1000) * 37 + i * 101 + j * 59 + i * j * 7 + ((i * i) % 251) + ((j * j * 13) % 241)) % 256)
Rand(i, n) == [j \in 1..n |-> Rb(i, j)]
El(F, i) == D!DPad(D!DMod(Rand(i, F.size), F.mod), F.size)
Edge(F, i) == CASE i % 7 = 0 -> D!DPad(<<>>, F.size)
                [] i % 7 = 1 -> D!DPad(<<1>>, F.size)
                [] i % 7 = 2 -> D!DPad(D!DSub(F.mod, <<1>>), F.size)
                [] OTHER -> El(F, i)
Some == <<F5, F17, F97, F257, F12289, F64, F96, F128, F255>>

ArithOk(F, i) ==
  LET x == Edge(F, i) y == Edge(F, i + 3) z == El(F, i + 5)
      u == <<x, y, z>> v == <<z, x, x>>
  IN  /\ FAdd(F, x, y) = D!DFAdd(F, x, y)
      /\ FSub(F, x, y) = D!DFSub(F, x, y)
      /\ FNeg(F, x) = D!DFNeg(F, x)
      /\ FMul(F, x, y) = D!DFMul(F, x, y)
      /\ BAdd(x, y) = D!DAdd(x, y)
      /\ BSub(x, y) = D!DSub(x, y)
      /\ BMul(x, y) = D!DMul(x, y)
      /\ BLess(x, y) = D!DLess(x, y)
      /\ BBits(x) = D!DBits(x)
      /\ BBit(x, i % 9) = D!DBit(x, i % 9)
      /\ BMod(BMul(x, z), F.mod) = D!DMod(D!DMul(x, z), F.mod)
      /\ FPow(F, x, <<i, i % 2>>) = D!DFPow(F, x, <<i, i % 2>>)
      /\ VAdd(F, u, v) = [k \in 1..3 |-> D!DFAdd(F, u[k], v[k])]
      /\ VSub(F, u, v) = [k \in 1..3 |-> D!DFSub(F, u[k], v[k])]
      /\ VScale(F, x, v) = [k \in 1..3 |-> D!DFMul(F, x, v[k])]
      /\ VSum(F, u) = D!DVSum(F, u)
      /\ VDot(F, u, v) = D!DVDot(F, u, v)
      /\ VAt(F, u, z) = D!DVAt(F, u, z)
      /\ VPowers(F, x, 4) = [k \in 1..4 |-> D!DFPow(F, x, <<k - 1>>)]
      /\ FSample(F, Rand(i, 64)) = D!DFSample(F, Rand(i, 64))
      /\ XorB(x, y) = D!DXor(x, y)
      /\ Chunks(Rand(i, 11), 3) = D!DChunks(Rand(i, 11), 3)
SlowOk(F, i) ==
  LET x == El(F, i) xs == <<D!DPad(<<1>>, F.size), D!DPad(<<2>>, F.size), D!DPad(<<3>>, F.size)>>
      ys == <<x, El(F, i + 1), El(F, i + 2)>>
  IN  /\ FInv(F, x) = D!DFInv(F, x)
      /\ F # F5 => VInterp(F, xs, ys, x) = D!DVInterp(F, xs, ys, x)

Phases == IF IOEnv.PHASES = "all" THEN {"arith", "slow", "turbo", "aes", "vectors"} ELSE {IOEnv.PHASES}
Cases(p) == CASE p = "arith" -> 1..(9 * 4) [] p = "slow" -> 1..5 [] p = "turbo" -> 1..4 [] p = "aes" -> 1..3 [] OTHER -> {1}

VARIABLES phase, k, result
vars == <<phase, k, result>>
Init == phase \in Phases /\ k \in Cases(phase) /\ result = "todo"
\* RFC 9861: TurboSHAKE128(M = empty, D = 1F, 64); FIPS 197 appendix B.
Rfc9861 == << 30, 65, 95, 28, 89, 131, 175, 242, 22, 146, 23, 39, 125, 23, 187, 83,
              140, 217, 69, 163, 151, 221, 236, 84, 31, 28, 228, 26, 242, 193, 183, 76 >>
Check ==
  CASE phase = "arith" -> ArithOk(Some[((k - 1) % 9) + 1], k)
    [] phase = "slow" -> SlowOk(Some[k], k)
    [] phase = "turbo" ->
         LET m == Rand(k, CASE k = 1 -> 0 [] k = 2 -> 167 [] k = 3 -> 168 [] OTHER -> 200)
             n == IF k = 4 THEN 200 ELSE 32
         IN  TurboShake128(m, k, n) = D!DTurboShake128(m, k, n)
    [] phase = "aes" -> Aes128(Rand(k, 16), Rand(k + 9, 16)) = D!DAes128(Rand(k, 16), Rand(k + 9, 16))
    [] OTHER ->
         /\ Take(TurboShake128(<<>>, 31, 64), 32) = Rfc9861
         /\ Aes128(<<43,126,21,22,40,174,210,166,171,247,21,136,9,207,79,60>>,
                   <<50,67,246,168,136,90,48,141,49,49,152,162,224,55,7,52>>)
            = <<57,37,132,29,2,220,9,251,220,17,133,151,25,106,11,50>>
Next == result = "todo" /\ result' = (IF Check THEN "same" ELSE "differs") /\ UNCHANGED <<phase, k>>
Spec == Init /\ [][Next]_vars
Holds == result # "differs"
=============================================================================
