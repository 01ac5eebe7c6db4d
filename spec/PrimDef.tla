------------------------------ MODULE PrimDef ------------------------------
(***************************************************************************)
(* Plain TLA+ definitions of the operators that module Prim lets Java      *)
(* evaluate.  Numbers are little-endian sequences of bytes.                *)
(***************************************************************************)
EXTENDS Integers, Sequences, Bitwise, TLC

Min2(a, b) == IF a < b THEN a ELSE b
Max2(a, b) == IF a > b THEN a ELSE b
Digit(x, i) == IF i <= Len(x) THEN x[i] ELSE 0

RECURSIVE DNorm(_)
DNorm(x) == IF x # <<>> /\ x[Len(x)] = 0 THEN DNorm(SubSeq(x, 1, Len(x) - 1)) ELSE x

RECURSIVE DAddC(_, _, _, _, _)
DAddC(x, y, i, c, acc) ==
  IF i > Max2(Len(x), Len(y)) THEN IF c = 0 THEN acc ELSE Append(acc, c)
  ELSE LET s == Digit(x, i) + Digit(y, i) + c
       IN  DAddC(x, y, i + 1, s \div 256, Append(acc, s % 256))
DAdd(x, y) == DNorm(DAddC(x, y, 1, 0, <<>>))

RECURSIVE DLessAt(_, _, _)
DLessAt(x, y, i) ==
  IF i = 0 THEN FALSE
  ELSE IF Digit(x, i) # Digit(y, i) THEN Digit(x, i) < Digit(y, i)
  ELSE DLessAt(x, y, i - 1)
DLess(x, y) == DLessAt(x, y, Max2(Len(x), Len(y)))

RECURSIVE DSubC(_, _, _, _, _)
DSubC(x, y, i, c, acc) ==
  IF i > Max2(Len(x), Len(y)) THEN acc
  ELSE LET s == Digit(x, i) - Digit(y, i) - c
       IN  DSubC(x, y, i + 1, IF s < 0 THEN 1 ELSE 0, Append(acc, s % 256))
DSub(x, y) == IF DLess(x, y) THEN <<>> ELSE DNorm(DSubC(x, y, 1, 0, <<>>))

RECURSIVE DMulDigit(_, _, _, _, _)
DMulDigit(x, d, i, c, acc) ==
  IF i > Len(x) THEN IF c = 0 THEN acc ELSE Append(acc, c)
  ELSE LET s == x[i] * d + c IN DMulDigit(x, d, i + 1, s \div 256, Append(acc, s % 256))
RECURSIVE DMulAt(_, _, _)
DMulAt(x, y, i) ==
  IF i > Len(y) THEN <<>>
  ELSE DAdd(DMulDigit(x, y[i], 1, 0, <<>>), <<0>> \o DMulAt(x, y, i + 1))
DMul(x, y) == DNorm(DMulAt(x, y, 1))

BitOf(b, i) == (b \div (2 ^ i)) % 2
DBit(x, i) == BitOf(Digit(x, i \div 8 + 1), i % 8)
RECURSIVE ByteBits(_)
ByteBits(b) == IF b = 0 THEN 0 ELSE 1 + ByteBits(b \div 2)
DBits(x) == LET n == DNorm(x) IN IF n = <<>> THEN 0 ELSE 8 * (Len(n) - 1) + ByteBits(n[Len(n)])

RECURSIVE DModAt(_, _, _, _)
DModAt(x, m, i, r) ==
  IF i < 0 THEN r
  ELSE LET r2 == DAdd(DAdd(r, r), IF DBit(x, i) = 1 THEN <<1>> ELSE <<>>)
       IN  DModAt(x, m, i - 1, IF DLess(r2, m) THEN r2 ELSE DSub(r2, m))
DMod(x, m) == DModAt(x, m, DBits(x) - 1, <<>>)

DPad(x, n) == [i \in 1..n |-> Digit(x, i)]

DFAdd(F, x, y) == DPad(DMod(DAdd(x, y), F.mod), F.size)
DFSub(F, x, y) == DPad(DMod(DSub(DAdd(x, F.mod), y), F.mod), F.size)
DFNeg(F, x) == DPad(DMod(DSub(F.mod, x), F.mod), F.size)
DFMul(F, x, y) == DPad(DMod(DMul(x, y), F.mod), F.size)
RECURSIVE DPowAt(_, _, _, _, _)
DPowAt(F, x, e, i, acc) ==
  IF i < 0 THEN acc
  ELSE LET sq == DFMul(F, acc, acc)
       IN  DPowAt(F, x, e, i - 1, IF DBit(e, i) = 1 THEN DFMul(F, sq, x) ELSE sq)
DFPow(F, x, e) == DPowAt(F, x, e, DBits(e) - 1, DPad(DMod(<<1>>, F.mod), F.size))
DFInv(F, x) == DFPow(F, x, DSub(F.mod, <<2>>))

RECURSIVE DVSum(_, _)
DVSum(F, u) == IF u = <<>> THEN DPad(<<>>, F.size) ELSE DFAdd(F, u[1], DVSum(F, Tail(u)))
DVDot(F, u, v) == DVSum(F, [i \in 1..Len(u) |-> DFMul(F, u[i], v[i])])
DVAt(F, c, x) == DVSum(F, [i \in 1..Len(c) |-> DFMul(F, c[i], DFPow(F, x, <<i - 1>>))])
RECURSIVE DVProd(_, _)
DVProd(F, u) == IF u = <<>> THEN DPad(<<1>>, F.size) ELSE DFMul(F, u[1], DVProd(F, Tail(u)))
DVInterp(F, xs, ys, x) ==
  DVSum(F, [i \in 1..Len(xs) |->
    LET js == SelectSeq([j \in 1..Len(xs) |-> j], LAMBDA j : j # i)
    IN  DFMul(F, ys[i],
          DFMul(F, DVProd(F, [k \in 1..Len(js) |-> DFSub(F, x, xs[js[k]])]),
                   DFInv(F, DVProd(F, [k \in 1..Len(js) |-> DFSub(F, xs[i], xs[js[k]])]))))])

RECURSIVE DMask(_, _)
DMask(x, bits) ==
  IF x = <<>> THEN <<>>
  ELSE IF bits >= 8 THEN <<x[1]>> \o DMask(Tail(x), bits - 8)
  ELSE <<x[1] % (2 ^ bits)>> \o [i \in 1..(Len(x) - 1) |-> 0]
DChunks(b, n) == [i \in 1..(Len(b) \div n) |-> SubSeq(b, (i - 1) * n + 1, i * n)]
DFSample(F, b) ==
  LET cs == DChunks(b, F.size)
      bits == DBits(DSub(F.mod, <<1>>))
      ms == [i \in 1..Len(cs) |-> DMask(cs[i], bits)]
  IN  SelectSeq(ms, LAMBDA x : DLess(x, F.mod))
DXor(x, y) == [i \in 1..Len(x) |-> x[i] ^^ y[i]]

-----------------------------------------------------------------------------
(* TurboSHAKE128 (RFC 9861): Keccak-p[1600, 12] on 25 lanes of 64 bits.    *)
(* A lane is a sequence of 64 bits, least significant first.               *)

LaneXor(a, b) == TLCEval([i \in 1..64 |-> (a[i] + b[i]) % 2])
LaneRot(a, r) == TLCEval([i \in 1..64 |-> a[((i - 1 - r) % 64) + 1]])
LaneChi(a, b, c) == TLCEval([i \in 1..64 |-> (a[i] + (1 - b[i]) * c[i]) % 2])
ZeroLane == [i \in 1..64 |-> 0]
\* Lanes are indexed x + 5 y.
Ln(s, x, y) == s[(x % 5) + 5 * (y % 5) + 1]
\* Rotation offset of lane (x, y): (t+1)(t+2)/2 at the t-th step of the walk
\* (x, y) -> (y, 2x + 3y) from (1, 0).
RECURSIVE RhoAt(_, _, _, _, _)
RhoAt(x, y, cx, cy, t) ==
  IF x = 0 /\ y = 0 THEN 0
  ELSE IF x = cx /\ y = cy THEN (((t + 1) * (t + 2)) \div 2) % 64
  ELSE RhoAt(x, y, cy, (2 * cx + 3 * cy) % 5, t + 1)
RhoTable == [i \in 1..25 |-> RhoAt((i - 1) % 5, (i - 1) \div 5, 1, 0, 0)]
\* The round-constant bit generator: an LFSR over x^8+x^6+x^5+x^4+1.
RECURSIVE RcState(_)
RcState(t) ==
  IF t = 0 THEN <<1, 0, 0, 0, 0, 0, 0, 0>>
  ELSE LET r == RcState(t - 1)
           f == r[8]
       IN  << f, r[1], r[2], r[3], (r[4] + f) % 2, (r[5] + f) % 2, (r[6] + f) % 2, r[7] >>
RcBit(t) == RcState(t)[1]
RoundConst(ir) ==
  TLCEval([i \in 1..64 |->
    IF \E j \in 0..6 : i = 2 ^ j
    THEN RcBit((CHOOSE j \in 0..6 : i = 2 ^ j) + 7 * ir) ELSE 0])
KRound(s, ir, rho) ==
  LET c  == TLCEval([x \in 0..4 |-> LaneXor(Ln(s, x, 0), LaneXor(Ln(s, x, 1),
                         LaneXor(Ln(s, x, 2), LaneXor(Ln(s, x, 3), Ln(s, x, 4)))))])
      d  == TLCEval([x \in 0..4 |-> LaneXor(c[(x + 4) % 5], LaneRot(c[(x + 1) % 5], 1))])
      th == TLCEval([i \in 1..25 |-> LaneXor(s[i], d[(i - 1) % 5])])
      rh == TLCEval([i \in 1..25 |-> LaneRot(th[i], rho[i])])
      \* pi: new lane (x, y) is old lane (x + 3y, x)
      pi == TLCEval([i \in 1..25 |-> LET x == (i - 1) % 5 y == (i - 1) \div 5 IN Ln(rh, x + 3 * y, x)])
      ch == TLCEval([i \in 1..25 |-> LET x == (i - 1) % 5 y == (i - 1) \div 5
                                     IN LaneChi(pi[i], Ln(pi, x + 1, y), Ln(pi, x + 2, y))])
  IN  TLCEval([ch EXCEPT ![1] = LaneXor(ch[1], RoundConst(ir))])
RECURSIVE KRounds(_, _, _)
KRounds(s, ir, rho) == IF ir = 24 THEN s ELSE KRounds(KRound(s, ir, rho), ir + 1, rho)
KeccakP12(s) == KRounds(s, 12, TLCEval(RhoTable))
LaneOfBytes(b) == TLCEval([i \in 1..64 |-> BitOf(b[((i - 1) \div 8) + 1], (i - 1) % 8)])
RECURSIVE BitsToByte(_, _, _)
BitsToByte(l, k, i) == IF i = 8 THEN 0 ELSE l[8 * k + i + 1] * (2 ^ i) + BitsToByte(l, k, i + 1)
Absorb1(s, blk) ==
  KeccakP12(TLCEval([i \in 1..25 |-> IF i <= 21 THEN LaneXor(s[i], LaneOfBytes(SubSeq(blk, 8 * i - 7, 8 * i))) ELSE s[i]]))
RECURSIVE AbsorbAll(_, _)
AbsorbAll(s, bs) == IF bs = <<>> THEN s ELSE AbsorbAll(Absorb1(s, SubSeq(bs, 1, 168)), SubSeq(bs, 169, Len(bs)))
Squeeze1(s) == TLCEval([i \in 1..168 |-> BitsToByte(s[((i - 1) \div 8) + 1], (i - 1) % 8, 0)])
RECURSIVE SqueezeAll(_, _)
SqueezeAll(s, n) ==
  IF n <= 168 THEN SubSeq(Squeeze1(s), 1, n)
  ELSE Squeeze1(s) \o SqueezeAll(KeccakP12(s), n - 168)
DTurboShake128(m, dom, n) ==
  LET blocks == Len(m) \div 168 + 1
      total  == 168 * blocks
      p0     == TLCEval([i \in 1..total |-> IF i <= Len(m) THEN m[i] ELSE IF i = Len(m) + 1 THEN dom ELSE 0])
      padded == [p0 EXCEPT ![total] = @ ^^ 128]
  IN  SqueezeAll(AbsorbAll([i \in 1..25 |-> ZeroLane], padded), n)

-----------------------------------------------------------------------------
(* AES-128 (FIPS 197).  The state is a sequence of 16 bytes, column-major. *)

XTime(a) == LET d == 2 * a IN IF d >= 256 THEN (d - 256) ^^ 27 ELSE d
RECURSIVE GMul(_, _)
GMul(a, b) == IF b = 0 THEN 0 ELSE (IF b % 2 = 1 THEN a ELSE 0) ^^ GMul(XTime(a), b \div 2)
GInv(a) == IF a = 0 THEN 0 ELSE CHOOSE b \in 1..255 : GMul(a, b) = 1
RotL8(b, n) == ((b * (2 ^ n)) % 256) + (b \div (2 ^ (8 - n)))
SubByte(a) == LET b == GInv(a) IN (((b ^^ RotL8(b, 1)) ^^ RotL8(b, 2)) ^^ (RotL8(b, 3) ^^ RotL8(b, 4))) ^^ 99
SBoxTable == TLCEval([a \in 0..255 |-> SubByte(a)])
ShiftRows(s) == TLCEval([i \in 1..16 |-> LET r == (i - 1) % 4 c == (i - 1) \div 4 IN s[r + 4 * ((c + r) % 4) + 1]])
MixCols(s) ==
  TLCEval([i \in 1..16 |->
    LET r == (i - 1) % 4
        c == (i - 1) \div 4
        a(k) == s[4 * c + ((r + k) % 4) + 1]
    IN  (GMul(a(0), 2) ^^ GMul(a(1), 3)) ^^ (a(2) ^^ a(3))])
RECURSIVE RCon(_)
RCon(i) == IF i = 1 THEN 1 ELSE XTime(RCon(i - 1))
NextKey(k, i, sb) ==
  LET t0 == << sb[k[14]] ^^ RCon(i), sb[k[15]], sb[k[16]], sb[k[13]] >>
      w0 == TLCEval([j \in 1..4 |-> k[j] ^^ t0[j]])
      w1 == TLCEval([j \in 1..4 |-> k[4 + j] ^^ w0[j]])
      w2 == TLCEval([j \in 1..4 |-> k[8 + j] ^^ w1[j]])
      w3 == TLCEval([j \in 1..4 |-> k[12 + j] ^^ w2[j]])
  IN  w0 \o w1 \o w2 \o w3
RECURSIVE AesRounds(_, _, _, _)
AesRounds(s, k, i, sb) ==
  LET sub == TLCEval([j \in 1..16 |-> sb[s[j]]])
      sh  == ShiftRows(sub)
      k2  == NextKey(k, i, sb)
  IN  IF i = 10 THEN DXor(sh, k2) ELSE AesRounds(TLCEval(DXor(MixCols(sh), k2)), k2, i + 1, sb)
DAes128(key, block) == AesRounds(TLCEval(DXor(block, key)), key, 1, SBoxTable)
=============================================================================
