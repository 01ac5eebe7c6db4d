-------------------------------- MODULE Xof ---------------------------------
(***************************************************************************)
(* Extendable output functions.  An XOF instance is the record             *)
(*   [kind |-> "turbo" | "aes", seed, dst, binder]                         *)
(* and stands for an infinite byte stream.                                 *)
(***************************************************************************)
EXTENDS Fields, SequencesExt

Turbo(seed, dst, binder) == [kind |-> "turbo", seed |-> seed, dst |-> dst, binder |-> binder]
FixedKeyAes(seed, dst, binder) == [kind |-> "aes", seed |-> seed, dst |-> dst, binder |-> binder]
SeedSize(kind) == IF kind = "turbo" THEN 32 ELSE 16

\* Which arguments the constructors accept.
XofAccepts(x) ==
  /\ Len(x.dst) < 65536
  /\ IF x.kind = "turbo" THEN Len(x.seed) < 256 ELSE Len(x.seed) = 16

AesKey(x) == TurboShake128(LE(Len(x.dst), 2) \o x.dst \o x.binder, 2, 16)
\* The correlation-robust hash: AES(sigma(b)) xor sigma(b), sigma(lo|hi) = hi | (hi xor lo).
HashBlock(key, b) ==
  LET lo == SubSeq(b, 1, 8)
      hi == SubSeq(b, 9, 16)
      sg == hi \o XorB(hi, lo)
  IN  XorB(Aes128(key, sg), sg)

\* The first n bytes of the stream.
Stream(x, n) ==
  IF x.kind = "turbo"
  THEN TurboShake128(LE(Len(x.dst), 2) \o x.dst \o <<Len(x.seed)>> \o x.seed \o x.binder, 1, n)
  ELSE LET key == TLCEval(AesKey(x))
       IN  Take(Cat([i \in 1..CeilDiv(n, 16) |-> HashBlock(key, XorB(x.seed, LE(i - 1, 16)))]), n)

\* The n bytes after the first off ones.
StreamFrom(x, off, n) ==
  IF x.kind = "turbo" THEN Drop(Stream(x, off + n), off)
  ELSE LET key == TLCEval(AesKey(x))
           first == off \div 16
       IN  SubSeq(Cat([i \in 1..(CeilDiv(off + n, 16) - first) |-> HashBlock(key, XorB(x.seed, LE(first + i - 1, 16)))]),
                  (off % 16) + 1, (off % 16) + n)

\* n field elements taken from the stream at byte offset off, by rejection sampling:
\* the result and the offset of the first byte not consumed.
RECURSIVE TakeVec(_, _, _, _, _)
TakeFrom(x, F, off, n, chunks) ==
  LET got == TLCEval(FSample(F, StreamFrom(x, off, chunks * F.size)))
  IN  IF Len(got) >= n THEN [vec |-> got, off |-> off + chunks * F.size]
      ELSE TakeVec(x, F, off, n, chunks + n - Len(got))
TakeVec(x, F, off, n, chunks) == TakeFrom(x, F, off, n, chunks)
NextVec(x, F, off, n) == IF n = 0 THEN [vec |-> <<>>, off |-> off] ELSE TakeVec(x, F, off, n, n)

ExpandVec(x, F, n) == NextVec(x, F, 0, n).vec
DeriveSeed(x) == Stream(x, SeedSize(x.kind))

\* Domain separation tags: version of the draft, class, algorithm (4 bytes), usage.
Version == 18
Dst(class, algo, usage) == <<Version, class>> \o algo \o BE(usage, 2)
=============================================================================
