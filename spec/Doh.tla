-------------------------------- MODULE Doh --------------------------------
(* A lookup over DoH, as seen from outside: requests and a result. want are  *)
(* the questions it has not put yet, out the requests without a response,    *)
(* sent and met what was put and how many were answered. What the library    *)
(* makes of a response is an argument (Builder.tla says what that is). Any   *)
(* number of requests may be open at a time, in any order.                   *)
EXTENDS Integers, Sequences, FiniteSets
Idle == [ph |-> "idle", want |-> {}, out |-> {}, put |-> 0]
\* first is the first question, or <<>> where the name or type is refused.
Start(first) == IF first = <<>> THEN [Idle EXCEPT !.ph = "failed"] ELSE [Idle EXCEPT !.ph = "open", !.want = {first[1]}]
MayAsk(l, q) == l.ph = "open" /\ q \in l.want
Ask(l, q, f) == [l EXCEPT !.want = @ \ {q}, !.out = @ \cup {f}, !.put = @ + 1]
Range(s) == {s[j] : j \in DOMAIN s}
Reply(l, f, good, taken, more) ==
  LET m == [l EXCEPT !.out = @ \ {f}] IN
  IF l.ph # "open" THEN m
  ELSE IF ~good THEN [m EXCEPT !.ph = "failed"]
  ELSE IF taken THEN [m EXCEPT !.want = @ \cup Range(more)] ELSE m
\* The result is due once nothing is left to ask or to wait for, and not before.
Due(l) == l.ph = "failed" \/ (l.ph = "open" /\ l.want = {} /\ l.out = {})
End(l) == [l EXCEPT !.ph = "over"]
=============================================================================
