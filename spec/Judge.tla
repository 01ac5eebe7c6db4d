------------------------------- MODULE Judge --------------------------------
(***************************************************************************)
(* Common vocabulary of the conformance specifications.  A recorded result *)
(* is [ok |-> TRUE, val |-> ...] or [ok |-> FALSE, err |-> ...]; the       *)
(* specification's outcome is Ok(value) or Refused.  A verdict is <<>> if  *)
(* they agree and otherwise says which clause fails.                       *)
(***************************************************************************)
EXTENDS Poly

Fine == <<>>
Match(what, res, want) ==
  IF res.ok /\ ~want.ok THEN <<what, "accepted what must be refused">>
  ELSE IF ~res.ok /\ want.ok THEN <<what, "refused what must be accepted", res.err>>
  ELSE IF want.ok THEN (IF res.val = want.val THEN Fine ELSE <<what, "wrong result">>)
  ELSE Fine
Same(what, got, want) == IF got = want THEN Fine ELSE <<what, "wrong result">>
Check(what, cond) == IF cond THEN Fine ELSE <<what>>
\* The first complaint of a sequence of verdicts.
RECURSIVE FirstBad(_)
FirstBad(vs) == IF vs = <<>> THEN Fine ELSE IF Head(vs) # Fine THEN Head(vs) ELSE FirstBad(Tail(vs))
\* Verdict of a vector of cases.
Each(n, v(_)) ==
  LET bads == {i \in 1..n : v(i) # Fine}
  IN  IF bads = {} THEN Fine ELSE LET i == CHOOSE i \in bads : \A j \in bads : i <= j IN v(i) \o <<"case", i>>
=============================================================================
