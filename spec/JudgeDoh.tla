------------------------------ MODULE JudgeDoh ------------------------------
(* Recorded lookups of the script as behaviours of Doh.tla, one step per     *)
(* event. ls is the state of each lookup of case i after k events.           *)
EXTENDS Verdict, IOUtils, Json, TLC
D == INSTANCE Doh
W == INSTANCE Wasm
Cases == ndJsonDeserialize(IOEnv.CASES)
VARIABLES i, k, ls
vars == <<i, k, ls>>
Case == Cases[i]
Out == Case.out
Ran == Out.res = "ok"
Lookup(l) == Case.lookups[l]

Down(t) == [j \in DOMAIN t |-> IF t[j] \in 65..90 THEN t[j] + 32 ELSE t[j]]
TypeOf(t) == LET s == Down(t) IN CASE s = S_a -> 1 [] s = S_aaaa -> 28 [] s = S_txt -> 16 [] s = S_tlsa -> 52 [] OTHER -> 0
\* The question the lookup begins with; what the library says about the name came with the event.
First(e) == LET c == Lookup(e.l) x == IF W!Completed(c.name) = c.name THEN e.lib[1] ELSE e.lib[2]
            IN IF TypeOf(c.ty) # 0 /\ x.some THEN <<x.b>> ELSE <<>>

\* RFC 4648 section 5, without padding.
Code(v) == IF v < 26 THEN 65 + v ELSE IF v < 52 THEN 71 + v ELSE IF v < 62 THEN v - 4 ELSE IF v = 62 THEN 45 ELSE 95
Base64url(b) ==
  LET at(j) == IF j <= Len(b) THEN b[j] ELSE 0
      bit6(j) == LET o == ((j - 1) * 6) \div 8 + 1   \* the j-th six bits
                     s == ((j - 1) * 6) % 8
                 IN ((at(o) * 256 + at(o + 1)) \div (2 ^ (10 - s))) % 64
  IN [j \in 1..((Len(b) * 8 + 5) \div 6) |-> Code(bit6(j))]
Url(q) == Case.endpoint \o S_dns_param \o Base64url(q)
Asked(e) == {q \in ls[e.l].want : Url(q) = e.url}

Init == i \in DOMAIN Cases /\ k = -1 /\ ls = <<>>
Begin == k = -1 /\ k' = 0 /\ i' = i /\ ls' = (IF Ran THEN [l \in DOMAIN Case.lookups |-> D!Idle] ELSE <<>>)
Event == /\ Ran /\ k >= 0 /\ k < Len(Out.log) /\ k' = k + 1 /\ i' = i
         /\ LET e == Out.log[k + 1] IN
            ls' = CASE e.ev = "start" -> [ls EXCEPT ![e.l] = D!Start(First(e))]
                    [] e.ev = "fetch" -> IF Asked(e) = {} THEN ls ELSE [ls EXCEPT ![e.l] = D!Ask(@, CHOOSE q \in Asked(e) : TRUE, e.f)]
                    [] e.ev = "reply" -> [ls EXCEPT ![e.l] = D!Reply(@, e.f, e.good, e.lr = "ok", e.q)]
                    [] OTHER -> [ls EXCEPT ![e.l] = D!End(@)]
Next == Begin \/ Event
Spec == Init /\ [][Next]_vars

Failure(c) == LET t == JText(c) IN Object(t, {S_error}) /\ Member(t.v, S_error).k = "s"
EventOk(e) ==
  LET l == ls[e.l] IN
  CASE e.ev = "fetch" -> l.ph = "open" /\ Asked(e) # {} /\ e.accept = S_dns_message /\ e.method = "GET"
    [] e.ev = "result" -> /\ e.how = "text" /\ D!Due(l)
                          /\ IF l.ph = "failed" THEN Failure(e.c)
                             ELSE LET f == Out.fins[e.l] IN IF f.some THEN VerdictOk([c |-> e.c, lib |-> f.lib]) ELSE Failure(e.c)
    [] OTHER -> TRUE
C24 == /\ Out.res = "ok"
       /\ k >= 0 /\ k < Len(Out.log) => Out.log[k + 1].l \in DOMAIN ls /\ EventOk(Out.log[k + 1])
       /\ k = Len(Out.log) => \A l \in DOMAIN ls : ls[l].ph = "over"
\* What the harness took the type for.
Truth == k = 0 => \A l \in DOMAIN ls : Lookup(l).n = TypeOf(Lookup(l).ty)
Note == Ran /\ k >= 0 /\ k < Len(Out.log) /\ Out.log[k + 1].ev = "result" =>
  LET e == Out.log[k + 1] l == ls[e.l] IN
  PrintT((IF l.ph = "failed" THEN (IF l.put = 0 THEN "refused at once" ELSE "request failed") ELSE IF Out.fins[e.l].some THEN "verdict " \o Out.fins[e.l].lib.res ELSE "no proof") \o (IF Len(ls) > 1 THEN " among several" ELSE ""))
=============================================================================
