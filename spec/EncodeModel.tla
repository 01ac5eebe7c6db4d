---------------------------- MODULE EncodeModel -----------------------------
(***************************************************************************)
(* Range-checked integers: for every bound, the encodings of 0..max are    *)
(* distinct strings of zeros and ones, every such string stands for an     *)
(* integer within the bound, and the encoded integer is recovered; the     *)
(* encodings of measurements are those the circuits let pass.              *)
(***************************************************************************)
EXTENDS JudgeFlp, IOUtils

Top == atoi(IOEnv.BOUND)
F == FieldOf("F64")
VARIABLES max, v
vars == <<max, v>>
Init == max \in 1..Top /\ v \in 0..max
Next == UNCHANGED vars
Spec == Init /\ [][Next]_vars
MX == Nat2B(max)
N == BBits(MX)
E(x) == EncInt(F, Nat2B(x), MX)
IsBits(e) == Len(e) = N /\ \A i \in 1..N : e[i] \in {FZero(F), FOne(F)}
Recovers == IsBits(E(v)) /\ DecInt(F, E(v), MX) = FInt(F, v)
\* strings of bits, by their number
BitsOf(x) == TLCEval([i \in 1..N |-> FInt(F, (x \div 2 ^ (i - 1)) % 2)])
Within == v = 0 => \A x \in 0..(2 ^ N - 1) : BLess(DecInt(F, BitsOf(x), MX), Nat2B(max + 1))
\* measurements of the types built on it
Sum == [name |-> "Sum", field |-> "F64", length |-> 1, chunk |-> 1, max |-> MX, poly |-> <<0>>]
Vec == [name |-> "SumVec", field |-> "F128", length |-> 2, chunk |-> 2, max |-> MX, poly |-> <<0>>]
His == [name |-> "Histogram", field |-> "F128", length |-> max, chunk |-> 2, max |-> <<1>>, poly |-> <<0>>]
Faithful(c, m) ==
  LET e == EncodeMeas(c, m)
      k == Contribution(c, m)
  IN  /\ ValidMeas(c, m) /\ ValidEnc(c, e)
      /\ Truncate(c, e) = [i \in 1..Len(k) |-> FOfNat(CF(c), k[i])]
Types ==
  /\ Faithful(Sum, <<Nat2B(v)>>)
  /\ Faithful(Vec, <<Nat2B(v), Nat2B(max - v)>>)
  /\ v < max => Faithful(His, <<Nat2B(v)>>)
  /\ ~ValidMeas(Sum, <<Nat2B(max + 1)>>) /\ ~ValidMeas(His, <<MX>>) /\ ~ValidMeas(Sum, <<<<-1, 1>>>>)
Hot == [name |-> "Multihot", field |-> "F128", length |-> 4, chunk |-> 2, max |-> <<IF max < 4 THEN max ELSE 4>>, poly |-> <<0>>]
Weights ==
  v = 0 => \A s \in SUBSET (1..4) :
    LET m == [i \in 1..4 |-> IF i \in s THEN <<1>> ELSE <<>>]
    IN  IF Cardinality(s) <= max THEN Faithful(Hot, m) ELSE ~ValidMeas(Hot, m)
=============================================================================
