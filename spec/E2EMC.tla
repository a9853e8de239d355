------------------------------- MODULE E2EMC -------------------------------
(* The builder (Builder.tla) against a truthful resolver: every tree of      *)
(* zones, every set of zones that sign the first answer, every order in      *)
(* which the open questions are answered. Zone 1 is the root, 0 stands for   *)
(* the name asked for. hist is the order, for replay on the code.            *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS MinZones, MaxZones, Export
Lt(a, b) == a < b
B == INSTANCE Builder WITH Cap <- 10, Root <- 1, TtlLt <- Lt, NoTtl <- 1000000
VARIABLES par, S, st, open, hist
vars == <<par, S, st, open, hist>>
Zs == 1..(Len(par) + 1)
Parent(z) == par[z - 1]
SignersOf(q) == IF q[1] = 0 THEN S ELSE IF q[2] = B!DnskeyT THEN {q[1]} ELSE {Parent(q[1])}
\* Signatures go with one TTL or another.
Msg(q) == [ok |-> TRUE, recs |-> <<q>>, signers |-> SignersOf(q), ttl |-> 100 * q[1] + q[2]]
Init == /\ \E n \in MinZones..MaxZones : par \in [1..(n - 1) -> 1..n] /\ \A z \in 1..(n - 1) : par[z] <= z
        /\ S \in (SUBSET Zs) \ {{}}
        /\ st = B!New /\ open = {<<0, 16>>} /\ hist = <<>>
Respond(q) ==
  LET r == B!Step(st, Msg(q)) IN
  /\ B!Awaiting(st)
  /\ st' = r.st /\ open' = (open \ {q}) \cup r.ask
  /\ hist' = IF Export THEN Append(hist, q) ELSE hist
  /\ UNCHANGED <<par, S>>
Next == \E q \in open : Respond(q)
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
\* By order nothing but the order of the records differs.
View == <<par, S, open, st.made, st.pending, st.signers, {st.recs[i] : i \in DOMAIN st.recs}, st.ttl>>

RECURSIVE Chain(_)
Chain(z) == IF z = 1 THEN {1} ELSE {z} \cup Chain(Parent(z))
Needed == UNION {Chain(z) : z \in S}
All == {<<0, 16>>} \cup B!Questions(Needed)
Fits == Cardinality(All) <= 10
MinTtl == CHOOSE t \in {Msg(q).ttl : q \in All} : \A q \in All : t <= Msg(q).ttl
Complete == {st.recs[i] : i \in DOMAIN st.recs} = All /\ Len(st.recs) = Cardinality(All) /\ st.ttl = MinTtl
Within5 == Cardinality(Zs) <= 5 => Fits
Counted == ~B!Over(st) => Cardinality(open) = st.pending
Right == B!MayFinish(st) => Complete
NeverOver == Fits => ~B!Over(st)
NotLess == ~Fits => ~B!MayFinish(st)
Ends == <>(IF Fits THEN B!MayFinish(st) ELSE B!Over(st))
Exported == Export /\ open = {} => PrintT(ToJson([par |-> par, s |-> S, sched |-> hist]))
============================================================================
