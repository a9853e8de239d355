------------------------------ MODULE Builder ------------------------------
(* The proof builder as a state machine. A state st holds                    *)
(*   made, pending  queries made so far, and those without an answer         *)
(*   signers        signer names seen (their DNSKEY, DS have been asked for) *)
(*   recs, ttl      the accepted records in order, the lowest TTL of them    *)
(* A message m is [ok, recs, signers, ttl]: whether it may contribute, and   *)
(* what. Step is one process_response: the new state and the questions asked.*)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS Cap,             \* queries it may make
          Root,            \* the root's name
          TtlLt(_, _), NoTtl

DnskeyT == 48
DsT == 43
Questions(names) == {<<z, DnskeyT>> : z \in names} \cup {<<z, DsT>> : z \in names \ {Root}}
New == [made |-> 1, pending |-> 1, signers |-> {}, recs |-> <<>>, ttl |-> NoTtl]
Over(st) == st.made > Cap
Awaiting(st) == st.pending > 0 /\ ~Over(st)
MayFinish(st) == st.pending = 0 /\ ~Over(st)
Accepts(st, m) == st.pending > 0 /\ m.ok
Step(st, m) ==
  IF ~Accepts(st, m) THEN [st |-> st, ok |-> FALSE, ask |-> {}]
  ELSE LET new == m.signers \ st.signers
           q == Questions(new)
           st2 == [made |-> st.made + Cardinality(q), pending |-> st.pending - 1 + Cardinality(q),
                   signers |-> st.signers \cup new, recs |-> st.recs \o m.recs,
                   ttl |-> IF TtlLt(m.ttl, st.ttl) THEN m.ttl ELSE st.ttl]
       IN [st |-> st2, ok |-> TRUE, ask |-> IF Over(st2) THEN {} ELSE q]
============================================================================
