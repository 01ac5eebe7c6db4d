---------------------------- MODULE SketchModel -----------------------------
(***************************************************************************)
(* The two-round sketch over a small field, as a protocol between two      *)
(* aggregators that hold additive shares of a vector of data, of           *)
(* authenticators and of correlated randomness, for every such vector.     *)
(***************************************************************************)
EXTENDS Poplar1, IOUtils

F == FieldOf(IOEnv.FIELD)
N == atoi(IOEnv.WIDTH)
P == B2Nat(F.mod)
Elems == {FInt(F, x) : x \in 0..(P - 1)}
Vecs == [1..N -> Elems]
\* the masks of the sharing: a few fixed ones
Mask(n, x) == TLCEval([i \in 1..n |-> FInt(F, (2 * x + 3 * i) % P)])

VARIABLES data, auth, k, abc, phase, r, states, msg, shares
vars == <<data, auth, k, abc, phase, r, states, msg, shares>>
Init ==
  /\ data \in Vecs /\ auth \in Vecs
  /\ IF IOEnv.KEYS = "all" THEN k \in Elems /\ abc \in {Mask(3, 0), Mask(3, 1)}
     ELSE k \in {FInt(F, 0), FInt(F, 2)} /\ abc = Mask(3, 1)
  /\ phase = "start" /\ r = <<>> /\ states = <<>> /\ msg = <<>> /\ shares = <<>>
\* correlated randomness of an honest client for the sum abc of the offsets
AB == << FSub(F, k, FMul(F, FInt(F, 2), abc[1])),
         FAdd(F, FSub(F, FAdd(F, FMul(F, abc[1], abc[1]), abc[2]), FMul(F, abc[1], k)), abc[3]) >>
Split(v, x) == << VSub(F, v, Mask(Len(v), x)), Mask(Len(v), x) >>
First ==
  /\ phase = "start"
  /\ \E rr \in Vecs :
       /\ r' = rr
       /\ LET d == Split(data, 1)
              a == Split(auth, 2)
              o == Split(abc, 3)
              ab == Split(AB, 4)
          IN  /\ states' = [p \in 1..2 |-> [A |-> ab[p][1], B |-> ab[p][2], id |-> p - 1, out |-> d[p]]]
              /\ shares' = [p \in 1..2 |-> SketchShare(F, o[p], rr, d[p], a[p])]
  /\ phase' = "first"
  /\ UNCHANGED <<data, auth, k, abc, msg>>
Second ==
  /\ phase = "first"
  /\ msg' = VAdd(F, shares[1], shares[2])
  /\ shares' = [p \in 1..2 |-> <<SketchNext(F, states[p].id, states[p].A, states[p].B, msg')>>]
  /\ phase' = "second"
  /\ UNCHANGED <<data, auth, k, abc, r, states>>
Finish ==
  /\ phase = "second"
  /\ phase' = IF VAdd(F, shares[1], shares[2]) = VZeros(F, 1) THEN "accepted" ELSE "rejected"
  /\ UNCHANGED <<data, auth, k, abc, r, states, msg, shares>>
Next == First \/ Second \/ Finish
Spec == Init /\ [][Next]_vars

One == FOne(F)
Zero == FZero(F)
OneHot == /\ \A i \in 1..N : data[i] \in {Zero, One}
          /\ Cardinality({i \in 1..N : data[i] = One}) <= 1
Good == OneHot /\ auth = [i \in 1..N |-> FMul(F, k, data[i])]
Complete == (phase = "rejected") => ~Good
\* acceptance is a quadratic relation in the challenge ...
Relation(q) ==
  LET u == VDot(F, data, q)
      v == VDot(F, data, [i \in 1..N |-> FMul(F, q[i], q[i])])
      w == VDot(F, auth, q)
  IN  FAdd(F, FSub(F, FMul(F, u, u), v), FSub(F, FMul(F, k, u), w)) = Zero
Exact == phase \in {"accepted", "rejected"} => ((phase = "accepted") <=> Relation(r))
RECURSIVE Power(_, _)
Power(b, e) == IF e = 0 THEN 1 ELSE b * Power(b, e - 1)
\* ... so anything else passes for at most a fraction 2 / p of the challenges
Sound == (phase = "start" /\ ~Good) => Cardinality({q \in Vecs : Relation(q)}) <= 2 * Power(P, N - 1)
\* the output shares add up to the data
Outputs == phase = "accepted" => VAdd(F, states[1].out, states[2].out) = data
=============================================================================
