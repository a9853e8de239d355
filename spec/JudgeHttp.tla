------------------------------ MODULE JudgeHttp ------------------------------
(* Recorded runs of the HTTP server: of every connection the bytes the client *)
(* sent and got, of every connection to the resolver the question it began    *)
(* with and the bytes the resolver sent. One state for each connection.       *)
EXTENDS Http, IOUtils, Json, TLC
Cases == ndJsonDeserialize(IOEnv.CASES)
VARIABLES i, k
Init == i \in {c \in DOMAIN Cases : Cases[c].out.res # "skipped"} /\ k \in DOMAIN Cases[i].out.conns
Next == FALSE /\ UNCHANGED <<i, k>>
Spec == Init /\ [][Next]_<<i, k>>
C == Cases[i].out.conns[k]
\* What became of the exchanges with the resolver about this question. None at all: it could not be reached.
Logs(q) == {x \in DOMAIN Cases[i].out.logs : Cases[i].out.logs[x].qn = q.n /\ Cases[i].out.logs[x].qt = q.t}
Right(q, r) ==
  IF r.ok /\ r.code = 404
  THEN IsNotFound(r) /\ \/ C.hog \/ \A w \in DOMAIN Cases[i].qs : Cases[i].qs[w] # <<q.n, q.t>>
                        \/ \E x \in Logs(q) : Fold(Cases[i].out.logs[x].sent).res = "err"
  ELSE \E x \in Logs(q) : LET f == Fold(Cases[i].out.logs[x].sent) IN f.odd \/ (f.res = "ok" /\ IsProof(r, f.st))
Fits(o, r) == CASE o.k = "none" -> C.got = <<>> \/ IsBad(r)
                [] o.k = "bad" -> IsBad(r)
                [] o.k = "notfound" -> IsNotFound(r)
                [] OTHER -> Right(o, r)
Told(os, r) == PrintT(C.end \o " " \o (IF Cardinality(os) = 1 THEN (CHOOSE o \in os : TRUE).k ELSE "several") \o (IF r.ok THEN " " \o ToString(r.code) ELSE ""))
C19 == /\ Cases[i].out.res = "ok"
       /\ C.end \in {"closed", "reset", "idle", "fin", "aborted"}
       /\ C.end = "idle" => C.got = <<>>
       /\ LET r == Response(C.got) os == Outcomes(C.sent) IN
          /\ C.end # "aborted" /\ C.sent # <<>> => \E o \in os : Fits(o, r)
          /\ Told(os, r)
==============================================================================
