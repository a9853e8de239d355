------------------------------- MODULE DohMC -------------------------------
(* The lookup script: L lookups at a time, each with a builder (Builder.tla) *)
(* of its own, putting its questions one after another (or, Parallel, as     *)
(* many at a time as it likes), against servers which answer, refuse or fail *)
(* in any order. hist is what the world outside did, for replay on the code. *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS L, MaxEvs, MaxNames, Parallel, Export
Lt(a, b) == a < b
B == INSTANCE Builder WITH Cap <- 10, Root <- 0, TtlLt <- Lt, NoTtl <- 1000000
D == INSTANCE Doh
VARIABLES ls, st, asked, res, n, hist
vars == <<ls, st, asked, res, n, hist>>   \* asked: of each lookup, the questions it put, in order
Ls == 1..L
First == <<99, 16>>
Init == ls = [l \in Ls |-> D!Idle] /\ st = [l \in Ls |-> B!New] /\ asked = [l \in Ls |-> <<>>] /\ res = [l \in Ls |-> "none"] /\ n = 0 /\ hist = <<>>
Log(x) == n' = n + 1 /\ hist' = (IF Export THEN Append(hist, x) ELSE hist)
\* The script acts until it can do no more; then the world does.
CanAsk(l) == ls[l].ph = "open" /\ ls[l].want # {} /\ (Parallel \/ ls[l].out = {})
Busy == \E l \in Ls : CanAsk(l) \/ D!Due(ls[l])
Ask(l) == /\ CanAsk(l)
          /\ \E q \in ls[l].want : /\ Parallel \/ \A p \in ls[l].want : q[1] < p[1] \/ (q[1] = p[1] /\ q[2] <= p[2])
                                   /\ ls' = [ls EXCEPT ![l] = D!Ask(@, q, Len(asked[l]) + 1)] /\ asked' = [asked EXCEPT ![l] = Append(@, q)]
          /\ UNCHANGED <<st, res, n, hist>>
Finish(l) == /\ D!Due(ls[l])
             /\ res' = [res EXCEPT ![l] = IF ls[l].ph # "failed" /\ B!MayFinish(st[l]) THEN "verdict" ELSE "error"]
             /\ ls' = [ls EXCEPT ![l] = D!End(@)] /\ UNCHANGED <<st, asked, n, hist>>
Free == n < MaxEvs /\ ~Busy
Start(l) == /\ Free /\ ls[l].ph = "idle" /\ (\A j \in 1..(l - 1) : ls[j].ph # "idle")
            /\ ls' = [ls EXCEPT ![l] = D!Start(<<First>>)]
            /\ Log([op |-> "start", l |-> l]) /\ UNCHANGED <<st, asked, res>>
RECURSIVE Seq1(_)
Seq1(s) == IF s = {} THEN <<>> ELSE LET x == CHOOSE x \in s : \A y \in s : x[1] < y[1] \/ (x[1] = y[1] /\ x[2] <= y[2]) IN <<x>> \o Seq1(s \ {x})
Signers(l) == LET m == Cardinality(st[l].signers) IN {0..(m + k - 1) : k \in 0..(IF MaxNames - m < 2 THEN MaxNames - m ELSE 2)}
Take(l, f, sg) == LET r == B!Step(st[l], [ok |-> TRUE, recs |-> <<n + 1>>, signers |-> sg, ttl |-> 1]) IN
  /\ Free /\ ls' = [ls EXCEPT ![l] = D!Reply(@, f, TRUE, r.ok, Seq1(r.ask))] /\ st' = [st EXCEPT ![l] = r.st]
  /\ Log([op |-> "reply", l |-> l, how |-> "p", a |-> [ok |-> TRUE, sg |-> sg]]) /\ UNCHANGED <<asked, res>>
Refuse(l, f) == /\ Free /\ ls' = [ls EXCEPT ![l] = D!Reply(@, f, TRUE, FALSE, <<>>)]
                /\ Log([op |-> "reply", l |-> l, how |-> "p", a |-> [ok |-> FALSE, sg |-> {}]]) /\ UNCHANGED <<st, asked, res>>
Fail(l, f, how) == /\ Free /\ ls' = [ls EXCEPT ![l] = D!Reply(@, f, FALSE, FALSE, <<>>)]
                   /\ Log([op |-> "reply", l |-> l, how |-> how]) /\ UNCHANGED <<st, asked, res>>
Outside == \/ \E l \in Ls : Start(l)
           \/ \E l \in Ls : \E f \in ls[l].out : (\E sg \in Signers(l) : Take(l, f, sg)) \/ Refuse(l, f) \/ (\E h \in IF Export THEN {"error", "status", "cut"} ELSE {"error"} : Fail(l, f, h))
Script == \E l \in Ls : Ask(l) \/ Finish(l)
Next == Script \/ Outside
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

Once == \A l \in Ls : \A a, b \in DOMAIN asked[l] : a # b => asked[l][a] # asked[l][b]
\* A verdict only where every question the builder needs was put and answered; an error only for a reason.
Whole == \A l \in Ls : res[l] = "verdict" => ls[l].out = {} /\ Len(asked[l]) = st[l].made
\* A lookup is at any time over, waiting for a response, or not begun.
Alive == ~Busy => \A l \in Ls : ls[l].ph \in {"idle", "over"} \/ ls[l].out # {}
Ends == \A l \in Ls : (ls[l].ph # "idle" /\ [](n < MaxEvs)) ~> ls[l].ph = "over"
Exported == Export /\ ~Busy /\ n > 0 /\ (n = MaxEvs \/ \A l \in Ls : ls[l].ph = "over") => PrintT(ToJson(hist))
=============================================================================
