------------------------------- MODULE HttpMC -------------------------------
(* The HTTP server among its clients: each sends a request in Frags pieces,  *)
(* and may stop, half-close or go away at any point; for each whole request  *)
(* the server asks a resolver, which answers, fails, or takes its time. The  *)
(* server holds a socket per connection and one per exchange with the        *)
(* resolver, Slots at most; a connection which cannot be accepted for lack   *)
(* of them waits in the listening queue.                                     *)
(* With Export the clients and the resolver act only once the server has     *)
(* done what it can: a history of theirs is then a schedule to replay.       *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS N, Frags, Slots, Export
Clients == 1..N
VARIABLES sent, cl,        \* pieces sent; the client: "away", "open", "fin", "gone"
          conn, seen,      \* the server's end: "none", "queued", "reading", "asking", "done"; pieces read
          asked, reply,    \* the exchange with the resolver: whose question (0: none); "none", "wait", "proof", "fail"
          got,             \* what the client received: <<>> or <<kind, whose>>
          hist
vars == <<sent, cl, conn, seen, asked, reply, got, hist>>
Init == /\ sent = [c \in Clients |-> 0] /\ cl = [c \in Clients |-> "away"] /\ conn = [c \in Clients |-> "none"] /\ seen = [c \in Clients |-> 0]
        /\ asked = [c \in Clients |-> 0] /\ reply = [c \in Clients |-> "none"] /\ got = [c \in Clients |-> <<>>] /\ hist = <<>>
Used == Cardinality({c \in Clients : conn[c] \in {"reading", "asking"}}) + Cardinality({c \in Clients : reply[c] = "wait" /\ asked[c] # 0})

----------------------------------------------------------------------------
Accept(c) == /\ conn[c] = "queued" /\ Used < Slots /\ conn' = [conn EXCEPT ![c] = "reading"]
             /\ UNCHANGED <<sent, cl, seen, asked, reply, got, hist>>
Close(c, answer) == /\ conn' = [conn EXCEPT ![c] = "done"]
                    /\ got' = IF cl[c] = "gone" \/ answer = <<>> THEN got ELSE [got EXCEPT ![c] = answer]
ReadMore(c) == /\ conn[c] = "reading" /\ seen[c] < sent[c]
               /\ \E k \in (seen[c] + 1)..sent[c] : seen' = [seen EXCEPT ![c] = k]
               /\ UNCHANGED <<sent, cl, conn, asked, reply, got, hist>>
\* The other side is done before its request is whole.
GiveUp(c) == /\ conn[c] = "reading" /\ seen[c] = sent[c] /\ seen[c] < Frags /\ cl[c] \in {"fin", "gone"} /\ Close(c, <<>>)
             /\ UNCHANGED <<sent, cl, seen, asked, reply, hist>>
Ask(c) == /\ conn[c] = "reading" /\ seen[c] = Frags /\ asked[c] = 0
          /\ IF Used < Slots THEN /\ asked' = [asked EXCEPT ![c] = c] /\ reply' = [reply EXCEPT ![c] = "wait"] /\ conn' = [conn EXCEPT ![c] = "asking"] /\ UNCHANGED got
             ELSE Close(c, <<"notfound", c>>) /\ UNCHANGED <<asked, reply>>
          /\ UNCHANGED <<sent, cl, seen, hist>>
Respond(c) == /\ conn[c] = "asking" /\ reply[c] \in {"proof", "fail"}
              /\ Close(c, IF reply[c] = "proof" THEN <<"proof", asked[c]>> ELSE <<"notfound", c>>)
              /\ UNCHANGED <<sent, cl, seen, asked, reply, hist>>
ServerStep(c) == Accept(c) \/ ReadMore(c) \/ GiveUp(c) \/ Ask(c) \/ Respond(c)

----------------------------------------------------------------------------
Log(what, c) == hist' = IF Export THEN Append(hist, <<what, c>>) ELSE hist
Send(c) == /\ cl[c] \in {"away", "open"} /\ sent[c] < Frags
           /\ sent' = [sent EXCEPT ![c] = @ + 1] /\ cl' = [cl EXCEPT ![c] = "open"]
           /\ conn' = [conn EXCEPT ![c] = IF @ = "none" THEN "queued" ELSE @]
           /\ Log("send", c) /\ UNCHANGED <<seen, asked, reply, got>>
Leave(c, how) == /\ cl[c] = "open" /\ got[c] = <<>> /\ cl' = [cl EXCEPT ![c] = how]
                 /\ Log(IF how = "fin" THEN "fin" ELSE "abort", c) /\ UNCHANGED <<sent, conn, seen, asked, reply, got>>
Resolve(c, r) == /\ reply[c] = "wait" /\ reply' = [reply EXCEPT ![c] = r]
                 /\ Log(IF r = "proof" THEN "release" ELSE "fail", c) /\ UNCHANGED <<sent, cl, conn, seen, asked, got>>
EnvStep(c) == Send(c) \/ Leave(c, "fin") \/ Leave(c, "gone") \/ Resolve(c, "proof") \/ Resolve(c, "fail")
Quiet == \A c \in Clients : ~ENABLED ServerStep(c)
Next == \/ \E c \in Clients : ServerStep(c)
        \/ (~Export \/ Quiet) /\ \E c \in Clients : EnvStep(c)
Spec == Init /\ [][Next]_vars
        /\ \A c \in Clients : WF_vars(ServerStep(c)) /\ WF_vars(Resolve(c, "proof") \/ Resolve(c, "fail"))
\* Those who stopped half way do not stay for ever.
Patience == \A c \in Clients : WF_vars(sent[c] < Frags /\ Leave(c, "gone"))
Fair == Spec /\ Patience

----------------------------------------------------------------------------
\* Everyone gets what their own request asks for, and only whole requests are answered.
OwnAnswer == \A c \in Clients : got[c] # <<>> => got[c][2] = c /\ seen[c] = Frags /\ (got[c][1] = "proof" => reply[c] = "proof")
\* A refusal is for want of a resolver: one that failed, or no socket to reach it with.
Refused == \A c \in Clients : got[c] # <<>> /\ got[c][1] = "notfound" /\ Slots >= 2 * N => reply[c] = "fail"
Bounded == Used <= Slots
\* Whatever the others do, who sent a whole request and stays is answered.
Served == \A c \in Clients : (sent[c] = Frags /\ cl[c] \in {"open", "fin"}) ~> (got[c] # <<>> \/ cl[c] = "gone")
\* With sockets enough this needs nobody's patience.
Over == Quiet /\ \A c \in Clients : (got[c] # <<>> \/ cl[c] \in {"fin", "gone"}) /\ reply[c] # "wait"
Exported == Export /\ Over /\ hist # <<>> => PrintT(ToJson([hist |-> hist, n |-> N]))
=============================================================================
