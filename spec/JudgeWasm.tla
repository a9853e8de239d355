----------------------------- MODULE JudgeWasm -----------------------------
(* Recorded histories of calls of the wrapper as behaviours of Wasm.tla, the *)
(* library's part in them being what the library did on the same calls.      *)
EXTENDS Verdict, IOUtils, Json, TLC
W == INSTANCE Wasm
Cases == ndJsonDeserialize(IOEnv.CASES)
VARIABLES i, k, w
vars == <<i, k, w>>
Case == Cases[i]
Out == Case.out
History == "steps" \in DOMAIN Out
None == [queue |-> <<>>, fetched |-> <<>>]
\* What the library makes of the name, as the wrapper has to complete it.
Lib == LET t == Case.name IN IF W!Completed(t) = t THEN Out.lib[1] ELSE Out.lib[2]
Init == i \in DOMAIN Cases /\ k = -1 /\ w = None
Begin == /\ k = -1 /\ k' = 0 /\ i' = i
         /\ w' = IF History THEN (IF Lib.some THEN W!Start(Lib.b) ELSE None) ELSE None
Fits(l) == ~PairLt(<<0, W!Limit>>, l)
Call == /\ History /\ k >= 0 /\ k < Len(Out.steps) /\ k' = k + 1 /\ i' = i
        /\ LET s == Out.steps[k + 1] IN
           w' = CASE s.op = "n" -> W!Fetch(w)
                  [] s.op = "r" -> W!Respond(w, Fits(s.len), s.lr = "ok", s.q)
                  [] OTHER -> w
Next == Begin \/ Call
Spec == Init /\ [][Next]_vars

\* Nothing comes of the calls but what is due: k of them done, w what is left.
StepOk(s) ==
  CASE s.op = "n" -> LET d == W!Fetched(w) IN s.some = (d # <<>>) /\ (d # <<>> => s.b = d[1])
    [] s.op = "r" -> s.lr = "none" <=> ~Fits(s.len)
    [] s.op = "f" -> s.some = s.l1.some /\ s.b = s.l1.b
                     /\ s.l1 = s.l2   \* refused responses made no difference
    [] OTHER -> FALSE
C20 == /\ Out.res = "ok"
       /\ k = 0 /\ History => Out.init = Lib.some
       /\ History /\ k >= 0 /\ k < Len(Out.steps) => StepOk(Out.steps[k + 1])
       /\ k = 0 /\ "v" \in DOMAIN Out => VerdictOk(Out.v)
       /\ k = 0 /\ "before" \in DOMAIN Out => VerdictOk(Out.before) /\ VerdictOk(Out.after)
Note == k = 0 => PrintT((IF "v" \in DOMAIN Out THEN "verdict " \o Out.v.lib.res ELSE "no proof") \o (IF History THEN (IF Out.init THEN " by history" ELSE " bad name") ELSE ""))
=============================================================================
