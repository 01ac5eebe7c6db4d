-------------------------------- MODULE Prim --------------------------------
(***************************************************************************)
(* Arithmetic on naturals, field elements and byte strings, and the two    *)
(* standard primitives.  All operators are defined by PrimDef; TLC         *)
(* evaluates them with java/Prim.java, which model SelfTest compares with  *)
(* these definitions.  A field is a record with (at least) fields mod (the *)
(* prime, as a little-endian byte sequence) and size (bytes per element).  *)
(***************************************************************************)
LOCAL INSTANCE PrimDef
LOCAL INSTANCE Integers
LOCAL INSTANCE Sequences

\* Naturals, normalised to have no leading zero byte.
BNorm(x) == DNorm(x)
BAdd(x, y) == DAdd(x, y)
BSub(x, y) == DSub(x, y)          \* zero if x < y
BMul(x, y) == DMul(x, y)
BMod(x, y) == DMod(x, y)
BLess(x, y) == DLess(x, y)
BBits(x) == DBits(x)              \* number of significant bits
BBit(x, i) == DBit(x, i)
BPad(x, n) == DPad(x, n)          \* to exactly n bytes

\* Field elements, of exactly F.size bytes.
FAdd(F, x, y) == DFAdd(F, x, y)
FSub(F, x, y) == DFSub(F, x, y)
FNeg(F, x) == DFNeg(F, x)
FMul(F, x, y) == DFMul(F, x, y)
FInv(F, x) == DFInv(F, x)
FPow(F, x, e) == DFPow(F, x, e)   \* e is a natural
FOfNat(F, n) == DPad(DMod(n, F.mod), F.size)
\* The elements obtained from a byte string by masking and rejection.
FSample(F, b) == DFSample(F, b)

\* Vectors (equal lengths).
VAdd(F, u, v) == [i \in 1..Len(u) |-> DFAdd(F, u[i], v[i])]
VSub(F, u, v) == [i \in 1..Len(u) |-> DFSub(F, u[i], v[i])]
VScale(F, c, v) == [i \in 1..Len(v) |-> DFMul(F, c, v[i])]
VDot(F, u, v) == DVDot(F, u, v)
VSum(F, u) == DVSum(F, u)
VPowers(F, x, n) == [i \in 1..n |-> DFPow(F, x, <<(i - 1) % 256, (i - 1) \div 256>>)]
VAt(F, c, x) == DVAt(F, c, x)     \* value at x of the polynomial with coefficients c
VInterp(F, xs, ys, x) == DVInterp(F, xs, ys, x)  \* of the one through (xs, ys)

RECURSIVE Cat(_)
Cat(parts) == IF parts = <<>> THEN <<>> ELSE Head(parts) \o Cat(Tail(parts))
Chunks(b, n) == DChunks(b, n)
XorB(x, y) == DXor(x, y)

TurboShake128(m, dom, n) == DTurboShake128(m, dom, n)
Aes128(key, block) == DAes128(key, block)
=============================================================================
