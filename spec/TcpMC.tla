-------------------------------- MODULE TcpMC --------------------------------
(* The framing over TCP: a resolver that sends NMsgs framed responses of     *)
(* Body bytes each and may break off anywhere, a network that delivers what  *)
(* was sent in any pieces, and a client which reads exactly two bytes of     *)
(* length and then exactly as many of content, and may be refused a response *)
(* (Bad, 0 for none). A byte is <<response, number in its frame>>.           *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS NMsgs, Body, Export
FrameLen == Body + 2
Total == NMsgs * FrameLen
Byte(k) == <<1 + (k - 1) \div FrameLen, 1 + ((k - 1) % FrameLen)>>
VARIABLES bad, stop,       \* which response is refused; where the resolver breaks off (Total: it does not)
          sent, closed,    \* bytes on their way, in the pieces they were sent in: hist
          pos, buf, want, got, res, hist
vars == <<bad, stop, sent, closed, pos, buf, want, got, res, hist>>
Init == /\ bad \in 0..NMsgs /\ stop \in 0..Total
        /\ sent = 0 /\ closed = FALSE /\ pos = 0 /\ buf = <<>> /\ want = 2 /\ got = <<>> /\ res = "run" /\ hist = <<>>
Send == \E k \in 1..(stop - sent) :
          /\ sent' = sent + k /\ hist' = IF Export THEN Append(hist, k) ELSE hist
          /\ UNCHANGED <<bad, stop, closed, pos, buf, want, got, res>>
Close == /\ sent = stop /\ stop < Total /\ ~closed /\ closed' = TRUE
         /\ UNCHANGED <<bad, stop, sent, pos, buf, want, got, res, hist>>
\* A read returns anything from one byte to what was asked for.
Read == /\ res = "run"
        /\ \E k \in 1..(IF sent - pos < want - Len(buf) THEN sent - pos ELSE want - Len(buf)) :
             LET b2 == buf \o [j \in 1..k |-> Byte(pos + j)] IN
             /\ pos' = pos + k
             /\ IF Len(b2) < want THEN buf' = b2 /\ UNCHANGED <<want, got, res>>
                ELSE IF want = 2 THEN buf' = <<>> /\ want' = Body /\ UNCHANGED <<got, res>>
                ELSE /\ buf' = <<>> /\ want' = 2 /\ got' = Append(got, b2)
                     /\ res' = IF Len(got') = bad THEN "err" ELSE IF Len(got') = NMsgs THEN "ok" ELSE "run"
        /\ UNCHANGED <<bad, stop, sent, closed, hist>>
AtEnd == /\ res = "run" /\ closed /\ pos = sent /\ res' = "err"
         /\ UNCHANGED <<bad, stop, sent, closed, pos, buf, want, got, hist>>
Next == Send \/ Close \/ Read \/ AtEnd
Spec == Init /\ [][Next]_vars /\ WF_vars(Send) /\ WF_vars(Close) /\ WF_vars(Read) /\ WF_vars(AtEnd)

\* However the bytes arrive, what is processed are the responses that were sent, in order.
Whole == \A j \in DOMAIN got : got[j] = [b \in 1..Body |-> <<j, b + 2>>]
\* A proof only from all of them; an error exactly if one is missing or refused.
AllOrErr == /\ res = "ok" => Len(got) = NMsgs /\ bad = 0 /\ stop = Total
            /\ res = "err" => stop < Total \/ bad # 0
\* It returns.
Ends == <>(res # "run")
Exported == Export /\ sent = stop /\ bad = 0 /\ pos = 0 => PrintT(ToJson([pieces |-> hist, stop |-> stop]))
=============================================================================
