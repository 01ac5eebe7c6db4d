------------------------------- MODULE Fields -------------------------------
(***************************************************************************)
(* Byte strings and the prime fields.  A field is a record                 *)
(*   mod  - the prime modulus, a little-endian byte sequence               *)
(*   size - the number of bytes of an encoded element                      *)
(*   gen  - a generator of the subgroup whose order is 2^log               *)
(* gen and log are meaningful for fields used with polynomial transforms.  *)
(* Elements are byte sequences of length size: their wire encodings.       *)
(***************************************************************************)
EXTENDS Integers, Sequences, Prim, TLC

\* The n-byte little- and big-endian encodings of a (TLC) integer.
RECURSIVE LE(_, _)
LE(x, n) == IF n = 0 THEN <<>> ELSE <<x % 256>> \o LE(x \div 256, n - 1)
RECURSIVE BE(_, _)
BE(x, n) == IF n = 0 THEN <<>> ELSE BE(x \div 256, n - 1) \o <<x % 256>>
RECURSIVE OfBE(_)
OfBE(b) == IF b = <<>> THEN 0 ELSE OfBE(SubSeq(b, 1, Len(b) - 1)) * 256 + b[Len(b)]
Nat2B(x) == BNorm(LE(x, 4))
\* The value of a natural small enough for TLC.
RECURSIVE B2Nat(_)
B2Nat(b) == IF b = <<>> THEN 0 ELSE b[1] + 256 * B2Nat(Tail(b))
ZeroBytes(n) == [i \in 1..n |-> 0]
Take(s, n) == SubSeq(s, 1, n)
Drop(s, n) == SubSeq(s, n + 1, Len(s))
MinOf(a, b) == IF a < b THEN a ELSE b
MaxOf(a, b) == IF a > b THEN a ELSE b

RECURSIVE NextPow2(_)
NextPow2(n) == IF n <= 1 THEN 1 ELSE 2 * NextPow2((n + 1) \div 2)
RECURSIVE Log2(_)
Log2(n) == IF n = 1 THEN 0 ELSE 1 + Log2(n \div 2)
CeilDiv(a, b) == (a + b - 1) \div b

\* 2^k and 2^k - 1 as naturals
Pow2B(k) == ZeroBytes(k \div 8) \o <<2 ^ (k % 8)>>

SmallField(p, sz, g, lg) == [mod |-> Nat2B(p), size |-> sz, gen |-> BPad(Nat2B(g), sz), log |-> lg]
\* 2^a * b + 1 with generator g^b, as in the parameter table of the draft
BigField(a, b, g, sz) ==
  LET m == BAdd(BMul(Pow2B(a), b), <<1>>)
      f == [mod |-> m, size |-> sz]
  IN  [mod |-> m, size |-> sz, gen |-> FPow(f, BPad(<<g>>, sz), b), log |-> a]

F5     == SmallField(5, 1, 2, 2)
F13    == SmallField(13, 1, 5, 2)
F17    == SmallField(17, 1, 3, 4)
F97    == SmallField(97, 1, 28, 5)
F193   == SmallField(193, 1, 11, 6)
F257   == SmallField(257, 2, 3, 8)
F7681  == SmallField(7681, 2, 62, 9)
F12289 == SmallField(12289, 2, 41, 12)
F40961 == SmallField(40961, 2, 243, 13)
F64    == BigField(32, BSub(Pow2B(32), <<1>>), 7, 8)
F96    == BigField(64, BSub(Pow2B(32), <<229, 2>>), 3, 12)
F128   == BigField(66, BSub(Pow2B(62), <<7>>), 7, 16)
F255   == [mod |-> BSub(Pow2B(255), <<19>>), size |-> 32, gen |-> ZeroBytes(32), log |-> 0]

FieldOf(name) ==
  CASE name = "F5" -> F5 [] name = "F13" -> F13 [] name = "F17" -> F17 [] name = "F97" -> F97
    [] name = "F193" -> F193 [] name = "F257" -> F257 [] name = "F7681" -> F7681
    [] name = "F12289" -> F12289 [] name = "F40961" -> F40961
    [] name = "F64" -> F64 [] name = "F96" -> F96 [] name = "F128" -> F128 [] name = "F255" -> F255

FZero(F) == ZeroBytes(F.size)
FOne(F) == FOfNat(F, <<1>>)
FInt(F, n) == FOfNat(F, Nat2B(n))
VZeros(F, n) == [i \in 1..n |-> FZero(F)]
VNeg(F, v) == [i \in 1..Len(v) |-> FNeg(F, v[i])]
IsElem(F, x) == Len(x) = F.size /\ BLess(x, F.mod)

\* Outcomes of operations that may be refused.
Ok(v) == [ok |-> TRUE, val |-> v]
Refused == [ok |-> FALSE]

\* Wire encoding of vectors: concatenation; decoding is strict.
EncVec(v) == Cat(v)
DecVec(F, b) ==
  IF Len(b) % F.size # 0 THEN Refused
  ELSE LET c == Chunks(b, F.size)
       IN  IF \A i \in 1..Len(c) : BLess(c[i], F.mod) THEN Ok(c) ELSE Refused
\* ... of exactly n elements
DecVecN(F, n, b) == IF Len(b) # n * F.size THEN Refused ELSE DecVec(F, b)
=============================================================================
