------------------------------- MODULE WasmMC -------------------------------
(* A caller of the wrapper: it fetches questions, hands in responses (taken, *)
(* refused, too long) whenever it likes, and finishes at some point. hist is *)
(* for replay on the code.                                                   *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS MaxOps, MaxNames, Export
Lt(a, b) == a < b
B == INSTANCE Builder WITH Cap <- 10, Root <- 0, TtlLt <- Lt, NoTtl <- 1000000
W == INSTANCE Wasm
VARIABLES w, st, made, due, hist, done
vars == <<w, st, made, due, hist, done>>   \* due: questions fetched and not answered yet
First == <<99, 16>>
Init == w = W!Start(First) /\ st = B!New /\ made = <<First>> /\ due = 0 /\ hist = <<>> /\ done = FALSE
RECURSIVE Seq1(_)
Seq1(s) == IF s = {} THEN <<>> ELSE LET x == CHOOSE x \in s : \A y \in s : x[1] < y[1] \/ (x[1] = y[1] /\ x[2] <= y[2]) IN <<x>> \o Seq1(s \ {x})
Log(x) == hist' = Append(hist, x)
Busy == Len(hist) < MaxOps /\ ~done
Fetch == /\ Busy /\ w' = W!Fetch(w) /\ due' = due + Len(W!Fetched(w)) /\ Log([op |-> "n"]) /\ UNCHANGED <<st, made, done>>
\* New names come in a fixed order.
Signers == LET m == Cardinality(st.signers) IN {0..(m + k - 1) : k \in 0..(IF MaxNames - m < 2 THEN MaxNames - m ELSE 2)}
Take(sg) == /\ Busy
            /\ LET m == [ok |-> TRUE, recs |-> <<Len(hist) + 1>>, signers |-> sg, ttl |-> 1]
                   r == B!Step(st, m)
               IN /\ st' = r.st /\ w' = W!Respond(w, TRUE, r.ok, Seq1(r.ask)) /\ made' = made \o Seq1(r.ask)
                  /\ due' = IF r.ok /\ due > 0 THEN due - 1 ELSE due
            /\ Log([op |-> "p", a |-> [ok |-> TRUE, sg |-> sg]]) /\ UNCHANGED done
Refuse(long) == /\ Busy /\ w' = W!Respond(w, ~long, FALSE, <<>>)
                /\ Log(IF long THEN [op |-> "x"] ELSE [op |-> "p", a |-> [ok |-> FALSE, sg |-> {}]]) /\ UNCHANGED <<st, made, due, done>>
Finish == ~done /\ done' = TRUE /\ Log([op |-> "f"]) /\ UNCHANGED <<w, st, made, due>>
Next == Fetch \/ (\E sg \in Signers : Take(sg)) \/ Refuse(FALSE) \/ Refuse(TRUE) \/ Finish
Spec == Init /\ [][Next]_vars
View == <<w, st.made, st.pending, st.signers, made, due, done, Len(hist)>>

\* Every question comes out in order, and once.
InOrder == w.fetched \o w.queue = made
Once == \A a, b \in DOMAIN made : a # b => made[a] # made[b]
\* They are the ones the builder needs answers to.
Needed == ~B!Over(st) => Len(made) = st.made
\* A caller which answers what it fetched, fetching until nothing comes, may finish.
Enough == ~B!Over(st) /\ w.queue = <<>> /\ st.pending = 0 => B!MayFinish(st)
Exported == Export /\ done => PrintT(ToJson(hist))
=============================================================================
