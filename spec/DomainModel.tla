---------------------------- MODULE DomainModel -----------------------------
(***************************************************************************)
(* Separation of derivations: every use of an extendable output function   *)
(* by the two VDAFs and the point function, for several algorithms,        *)
(* contexts, nonces, aggregators, levels and numbers of proofs, absorbs a  *)
(* different string.  Contexts and seeds are chosen to look like the       *)
(* continuation of one another.                                            *)
(***************************************************************************)
EXTENDS Poplar1, IOUtils

Ids == {<<0, 0, 0, 0>>, <<0, 0, 0, 1>>, <<0, 0, 1, 0>>, <<0, 0, 0, 6>>}
Ctxs == {<<>>, <<0>>, <<0, 0>>, <<1>>, <<32>>, <<0, 1>>, <<1, 0>>, <<16>>, <<0, 1, 0, 1>>}
\* a seed that begins like the end of a tag, and one that does not
Seed(n) == {TLCEval([i \in 1..n |-> n]), TLCEval([i \in 1..n |-> IF i = 1 THEN 1 ELSE 0])}
Nonces == {TLCEval([i \in 1..16 |-> 0]), TLCEval([i \in 1..16 |-> IF i = 1 THEN 1 ELSE 0]), TLCEval([i \in 1..16 |-> 32])}
Counts == {1, 2, 32}
Ids2 == {0, 1, 2, 32}

\* What TurboSHAKE is given: domain byte and string.
Frame(x) ==
  IF x.kind = "turbo" THEN <<1>> \o LE(Len(x.dst), 2) \o x.dst \o <<Len(x.seed)>> \o x.seed \o x.binder
  ELSE <<2>> \o LE(Len(x.dst), 2) \o x.dst \o x.binder
\* An AES stream is named by its key's string and its seed.
Name(x) == IF x.kind = "turbo" THEN <<Frame(x)>> ELSE <<Frame(x), x.seed>>

\* Uses: [of, tag..., binder]. Each is named by what it is for; only that may make it equal to another.
P3Tag(id, usage, ctx) == Dst(0, id, usage) \o ctx
Uses ==
  {[use |-> <<"measurement share", id, c, s, j>>, x |-> Turbo(s, P3Tag(id, 1, c), <<j>>)] : id \in Ids, c \in Ctxs, s \in Seed(32), j \in Ids2}
  \cup {[use |-> <<"proof share", id, c, s, j, p>>, x |-> Turbo(s, P3Tag(id, 2, c), <<p, j>>)] : id \in Ids, c \in Ctxs, s \in Seed(32), j \in Ids2, p \in Counts}
  \cup {[use |-> <<"joint randomness", id, c, s, p>>, x |-> Turbo(s, P3Tag(id, 3, c), <<p>>)] : id \in Ids, c \in Ctxs, s \in Seed(32), p \in Counts}
  \cup {[use |-> <<"prove randomness", id, c, s, p>>, x |-> Turbo(s, P3Tag(id, 4, c), <<p>>)] : id \in Ids, c \in Ctxs, s \in Seed(32), p \in Counts}
  \cup {[use |-> <<"query randomness", id, c, s, p, n>>, x |-> Turbo(s, P3Tag(id, 5, c), <<p>> \o n)] : id \in Ids, c \in Ctxs, s \in Seed(32), p \in Counts, n \in Nonces}
  \cup {[use |-> <<"joint seed", id, c, a, b>>, x |-> Turbo(ZeroBytes(32), P3Tag(id, 6, c), a \o b)] : id \in Ids, c \in Ctxs, a \in Seed(32), b \in Seed(32)}
  \cup {[use |-> <<"joint part", id, c, s, j, n, v>>, x |-> Turbo(s, P3Tag(id, 7, c), <<j>> \o n \o v)]
         : id \in Ids, c \in Ctxs, s \in Seed(32), j \in Ids2, n \in Nonces, v \in Seed(8)}
PopUses ==
  {[use |-> <<"shard", id, c, s, n>>, x |-> Turbo(s, P3Tag(id, 1, c), n)] : id \in {<<0, 0, 0, 6>>}, c \in Ctxs, s \in Seed(32), n \in Nonces}
  \cup {[use |-> <<"inner", id, c, s, j, n>>, x |-> Turbo(s, P3Tag(id, 2, c), <<j>> \o n)] : id \in {<<0, 0, 0, 6>>}, c \in Ctxs, s \in Seed(32), j \in 0..1, n \in Nonces}
  \cup {[use |-> <<"leaf", id, c, s, j, n>>, x |-> Turbo(s, P3Tag(id, 3, c), <<j>> \o n)] : id \in {<<0, 0, 0, 6>>}, c \in Ctxs, s \in Seed(32), j \in 0..1, n \in Nonces}
  \cup {[use |-> <<"verify", id, c, s, n, l>>, x |-> Turbo(s, P3Tag(id, 4, c), n \o BE(l, 2))] : id \in {<<0, 0, 0, 6>>}, c \in Ctxs, s \in Seed(32), n \in Nonces, l \in {0, 1, 255, 256, 257}}
  \cup {[use |-> <<"node", c, s, n, u, leaf>>, x |-> IdpfXof(2, IF leaf THEN 1 ELSE 0, s, u, c, n)] : c \in Ctxs, s \in Seed(16), n \in Nonces, u \in 0..1, leaf \in BOOLEAN}

VARIABLE part
Init == part \in {"prio3", "poplar1"}
Next == UNCHANGED part
Spec == Init /\ [][Next]_part
Distinct ==
  LET us == IF part = "prio3" THEN {u \in Uses : u.use[2] # <<0, 0, 0, 6>>} ELSE PopUses
      named == {Name(u.x) : u \in us}
  IN  Cardinality(us) > 500 /\ Cardinality(named) = Cardinality(us)
\* Neither do the two VDAFs meet, nor Prio3 with other contents under the same tag.
Apart ==
  LET a == {Name(u.x) : u \in {u \in Uses : u.use[2] # <<0, 0, 0, 6>>}}
      b == {Name(u.x) : u \in PopUses}
  IN  a \cap b = {}
=============================================================================
