---------------------------- MODULE JudgeShamir -----------------------------
(***************************************************************************)
(* Conformance of threshold secret sharing and its composition with the    *)
(* proof system and aggregation.                                           *)
(***************************************************************************)
EXTENDS Shamir, JudgeFlp

\* Element e of the i-th share.
Column(shares, e) == TLCEval([i \in 1..Len(shares) |-> shares[i][e]])
Unshard(F, index, shares) == TLCEval([e \in 1..Len(shares[1]) |-> Recover(F, index, Column(shares, e))])
\* Known finding: unsharding fails if all the shares of an element are zero.
ZeroElement(F, shares) == \E e \in 1..Len(shares[1]) : \A i \in 1..Len(shares) : shares[i][e] = FZero(F)
Excused(ev, F) == ev.known /\ ~ev.out.ok /\ ev.out.err = "IndexError" /\ ZeroElement(F, ev.shares)

ShamirCall(T, ev) ==
  LET F == FieldOf(ev.field)
  IN
  CASE ev.op = "shard" ->
         IF ~ev.out.ok THEN <<"sharing fails", ev.out.err>>
         ELSE LET sh == ev.out.val IN
              IF Len(sh) # ev.n \/ \E i \in 1..Len(sh) : Len(sh[i]) # Len(ev.secret) THEN <<"number of shares">>
              ELSE FirstBad(<<
                Check("shares are not of the threshold", \A e \in 1..Len(ev.secret) : IsSharing(F, ev.secret[e], ev.t, Column(sh, e))),
                \* the top coefficient vanishes with negligible probability in a large field
                Check("fewer shares suffice", ~ev.large \/ \A e \in 1..Len(ev.secret) : ~Degenerate(F, ev.secret[e], ev.t, Column(sh, e))) >>)
    [] ev.op = "unshard" ->
         IF Excused(ev, F) THEN Fine
         ELSE Match("secret recovered", ev.out, Ok(Unshard(F, ev.index, ev.shares)))
    \* tables: for each secret, the shares at the given positions for every choice of randomness
    [] ev.op = "dist" ->
         Each(Len(ev.tables), LAMBDA s :
           LET tab == ev.tables[s]
           IN  FirstBad(<<
                 Check("a combination of shares occurs twice", Cardinality({tab[k] : k \in 1..Len(tab)}) = Len(tab)),
                 Check("not every combination of shares occurs", Len(tab) = ev.total),
                 Check("shares depend on the secret", {tab[k] : k \in 1..Len(tab)} = {ev.tables[1][k] : k \in 1..Len(ev.tables[1])}) >>))
    \* the proof system on shares: the recovered verifier is the verifier
    [] ev.op = "query" ->
         LET c == T.Cs[ev.c]
             want == TLCEval(Query(c, ev.meas, ev.proof, ev.qr, ev.jr, 1))
         IN  IF ~want.ok THEN Check("query at a root of unity must be refused", ~ev.out.ok)
             ELSE IF Excused(ev, F) THEN Fine
             ELSE FirstBad(<<
               Match("verifier recovered from shares", ev.out, want),
               IF ev.out.ok THEN Match("decision", ev.dec, Ok(Decide(c, want.val))) ELSE Fine,
               Check("honest proof rejected", ~ev.honest \/ (ev.dec.ok /\ ev.dec.val)) >>)
    \* a batch: encoded, shared, truncated, summed, recovered and decoded
    [] ev.op = "batch" ->
         IF Excused(ev, F) THEN Fine
         ELSE Match("aggregate recovered from shares", ev.out, Ok(Summed(T.Cs[ev.c], ev.ms)))
=============================================================================
