----------------------------- MODULE ParamModel -----------------------------
(***************************************************************************)
(* Histories of aggregation parameters: from any history of accepted ones  *)
(* any parameter is offered, and joins the history if it is admitted.  The *)
(* histories are printed, to be replayed into the code.                    *)
(***************************************************************************)
EXTENDS Vdaf, Json, IOUtils

Bits == atoi(IOEnv.BITS)
Width == atoi(IOEnv.WIDTH)
V == [kind |-> "poplar1", bits |-> Bits]
Strings(n) == [1..n -> {0, 1}]
Params == UNION {UNION {{[level |-> l, prefixes |-> ps] : ps \in [1..k -> Strings(l + 1)]} : k \in 0..Width} : l \in 0..(Bits - 1)}

VARIABLES hist
Init == hist = <<>>
Offer(p) == VIsValid(V, p, hist) /\ hist' = Append(hist, p)
Next == \E p \in Params : Offer(p)
Spec == Init /\ [][Next]_hist

\* No level is used twice, and levels only get deeper.
Deeper == \A i, j \in 1..Len(hist) : i < j => hist[i].level < hist[j].level
\* Every prefix extends one of the prefixes of every earlier parameter.
Nested ==
  \A i, j \in 1..Len(hist) : i < j =>
    \A k \in 1..Len(hist[j].prefixes) :
      \E m \in 1..Len(hist[i].prefixes) : Take(hist[j].prefixes[k], hist[i].level + 1) = hist[i].prefixes[m]
Distinct == \A i \in 1..Len(hist) : IsInjective(hist[i].prefixes)
Emit == PrintT(<<"hist", ToJson(hist)>>)
=============================================================================
