---------------------------- MODULE JudgeBuffer -----------------------------
(* Recorded uses of real query buffers as behaviours of Buffer.tla, one step *)
(* per operation: after each the code's two buffers were read in every way.  *)
EXTENDS Integers, Sequences, IOUtils, Json, TLC
Bf == INSTANCE Buffer WITH Max <- 65535
Cases == ndJsonDeserialize(IOEnv.CASES)
VARIABLES i, k, bufs
vars == <<i, k, bufs>>
Init == i \in DOMAIN Cases /\ k = 0 /\ bufs = Bf!Fresh
Out == Cases[i].out
Next == /\ Out.res = "ok" /\ k < Len(Cases[i].ops)
        /\ i' = i /\ k' = k + 1 /\ bufs' = Bf!Apply(bufs, Cases[i].ops[k + 1])
Spec == Init /\ [][Next]_vars
C21 == /\ Out.res = "ok"
       /\ k > 0 => LET o == Out.steps[k] IN
            /\ \A b \in 1..2 : bufs[b].known => o.r[b] = bufs[b].r /\ o.v[b] = bufs[b].r
            /\ bufs[1].known /\ bufs[2].known => (o.eq <=> bufs[1].r = bufs[2].r) /\ o.eq = o.qe
            \* Reading, and comparing with itself, is possible whatever went before.
            /\ o.self
Note == k = Len(Cases[i].ops) => PrintT(IF \A b \in 1..2 : bufs[b].known THEN "within 65535" ELSE "extended past 65535")
=============================================================================
