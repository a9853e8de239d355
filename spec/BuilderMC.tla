----------------------------- MODULE BuilderMC -----------------------------
(* The builder against any resolver: at every point any message may arrive,  *)
(* refused ones, unsolicited ones, ones naming no, old or new signers. New   *)
(* names come in a fixed order (they are interchangeable). hist is the       *)
(* behaviour so far, for replay on the code.                                 *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS MaxMsgs, MaxNames, Export
Lt(a, b) == a < b
B == INSTANCE Builder WITH Cap <- 10, Root <- 0, TtlLt <- Lt, NoTtl <- 1000000
VARIABLES st, asked, refused, hist
vars == <<st, asked, refused, hist>>

Init == st = B!New /\ asked = <<>> /\ refused = 0 /\ hist = <<>>
\* Known names that a message repeats, and how many new ones it brings.
OldChoices == {{}} \cup (IF st.signers = {} THEN {} ELSE {{CHOOSE x \in st.signers : \A y \in st.signers : x <= y}, st.signers})
NewNames(k) == LET n == Cardinality(st.signers) IN n..(n + k - 1)
Msgs == {[ok |-> FALSE, recs |-> <<>>, signers |-> {}, ttl |-> 0]} \cup
        {[ok |-> TRUE, recs |-> <<Len(hist) + 1>>, signers |-> o \cup NewNames(k), ttl |-> 100 - Len(hist)] :
           o \in OldChoices, k \in 0..(IF MaxNames - Cardinality(st.signers) < 3 THEN MaxNames - Cardinality(st.signers) ELSE 3)}
Arrive(m) ==
  LET r == B!Step(st, m) IN
  /\ Len(hist) < MaxMsgs
  /\ st' = r.st
  /\ asked' = asked \o LET q == r.ask IN IF q = {} THEN <<>> ELSE <<q>>
  /\ refused' = refused + (IF r.ok THEN 0 ELSE 1)
  /\ hist' = Append(hist, [ok |-> m.ok, sg |-> m.signers])
Next == \E m \in Msgs : Arrive(m)
Spec == Init /\ [][Next]_vars

AllAsked == UNION {asked[i] : i \in DOMAIN asked}
\* Each question at most once, and within the limit.
Once == \A i, j \in DOMAIN asked : i # j => asked[i] \cap asked[j] = {}
Limited == 1 + Cardinality(AllAsked) <= 10
\* As long as it is within the limit, everything needed has been asked for and is counted.
Needed == ~B!Over(st) => AllAsked = B!Questions(st.signers) /\ st.made = 1 + Cardinality(AllAsked)
                         /\ st.pending = st.made - (Len(hist) - refused)
\* Nothing is handed out with a question open; it stops awaiting exactly then.
Done == B!MayFinish(st) => ~B!Awaiting(st) /\ Len(hist) - refused = st.made
Stops == ~B!Awaiting(st) => B!MayFinish(st) \/ B!Over(st)
\* The proof holds the accepted messages' records, each once, in order of arrival.
Proof == LET acc == SelectSeq([i \in DOMAIN hist |-> i], LAMBDA i : \E k \in DOMAIN st.recs : st.recs[k] = i) IN st.recs = acc /\ Len(st.recs) = Len(hist) - refused
Lowest == \A k \in DOMAIN st.recs : st.ttl <= 101 - st.recs[k]
Exported == Export /\ Len(hist) = MaxMsgs => PrintT(ToJson(hist))
============================================================================
