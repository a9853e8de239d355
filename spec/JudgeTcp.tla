------------------------------ MODULE JudgeTcp ------------------------------
(* Recorded exchanges over TCP: sent is every byte the resolver sent, got    *)
(* every byte it received (whole unless it reset the connection). Each step  *)
(* takes one framed response off sent, as Tcp.tla's client does, and the     *)
(* builder's questions off got.                                              *)
EXTENDS BuilderMsg, IOUtils, Json, TLC
Cases == ndJsonDeserialize(IOEnv.CASES)
VARIABLES i, st, p, g, res, odd
vars == <<i, st, p, g, res, odd>>
Out == Cases[i].out
TypeOf(f) == <<16, 1, 28, 52>>[(f % 4) + 1]

\* Where the queries asking S end in got: 0 if got ends before, -1 if they are other bytes.
Asks(S, at) ==
  LET RECURSIVE Go(_, _, _)
      Go(n, a, acc) == IF n = 0 THEN IF acc = S THEN a ELSE -1
                       ELSE LET f == Frame(Out.got, a) IN
                            IF ~f.ok THEN 0
                            ELSE LET q == Question(f.b) IN IF q = <<>> \/ ~QueryOk(f.b, q[1], q[2]) THEN -1 ELSE Go(n - 1, f.p, acc \cup {q})
  IN IF at = 0 THEN 0 ELSE Go(Cardinality(S), at, {})
Init == /\ i \in {c \in DOMAIN Cases : Cases[c].out.res # "skipped"} /\ st = B!New /\ p = 1 /\ odd = FALSE /\ res = "run"
        /\ g = Asks({<<Out.qn, TypeOf(Out.fi)>>}, 1)
Next == /\ res = "run" /\ g # -1 /\ i' = i
        /\ IF ~B!Awaiting(st) THEN res' = (IF B!MayFinish(st) THEN "ok" ELSE "err") /\ UNCHANGED <<st, p, g, odd>>
           ELSE LET f == Frame(Out.sent, p) IN
                IF ~f.ok THEN res' = "err" /\ UNCHANGED <<st, p, g, odd>>
                ELSE LET m == Message(f.b) r == B!Step(st, m) IN
                     /\ odd' = (odd \/ m.lax \/ m.free)
                     /\ st' = r.st /\ p' = f.p
                     /\ IF ~r.ok THEN res' = "err" /\ g' = g ELSE res' = "run" /\ g' = Asks(r.ask, g)
Spec == Init /\ [][Next]_vars

ProofBytes == FlattenSeq([j \in DOMAIN st.recs |-> Enc(st.recs[j][1], st.recs[j][2])])
\* Queries may be lost where the connection was reset, if only because the client
\* closed it with responses unread.
Lossy == ~Out.whole \/ p <= Len(Out.sent) \/ Out.sent = <<>>
\* Bytes where the code has a choice are the business of C09 and C15.
C18 == /\ Out.res \in {"ok", "err"} /\ ~Out.stall
       /\ ~odd => /\ g # -1
                  /\ res = "err" => Out.res = "err" /\ (Lossy \/ Len(Out.got) = g - 1)
                  /\ res = "ok" => \/ Out.res = "ok" /\ Out.b = ProofBytes /\ Out.ttl = st.ttl /\ (Lossy \/ Len(Out.got) = g - 1)
                                   \/ Out.res = "err" /\ ~Out.whole
Note == res # "run" => PrintT(res \o " -> " \o Out.res \o (IF Out.whole THEN "" ELSE " reset") \o (IF odd THEN " odd" ELSE ""))
=============================================================================
