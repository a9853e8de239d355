--------------------------- MODULE JudgeBuilder ---------------------------
(* Recorded runs of the real builder as behaviours of Builder.tla: one step  *)
(* per message, whose content Wire.tla gives the bytes. i is the case, k the *)
(* messages processed, st the specification's state, seen what it predicts   *)
(* for the last step.                                                        *)
EXTENDS BuilderMsg, IOUtils, Json, TLC
Cases == ndJsonDeserialize(IOEnv.CASES)

VARIABLES i, k, st, seen
vars == <<i, k, st, seen>>
None == [ok |-> TRUE, ask |-> {}, lax |-> FALSE, free |-> FALSE]
Init == i \in DOMAIN Cases /\ k = 0 /\ st = B!New /\ seen = None
Out == Cases[i].out
Ran == Out.res = "ok"
Next == /\ Ran /\ k < Len(Out.steps) /\ i' = i /\ k' = k + 1
        /\ LET m == Message(Out.msgs[k + 1])
               o == Out.steps[k + 1]
               \* Where refusing is as good, the code has the choice.
               r == B!Step(st, IF m.lax /\ o.res = "err" THEN Refused ELSE m)
           IN /\ st' = r.st
              /\ seen' = [ok |-> r.ok, ask |-> r.ask, lax |-> m.lax, free |-> seen.free \/ m.free]
Spec == Init /\ [][Next]_vars

LastStep == Out.steps[k]
Sure == Ran /\ ~seen.free
\* Beyond the limit nothing more is said about single responses.
Within == k = 0 \/ ~B!Over(st)
Ended == k = Len(Out.steps)
ProofBytes == FlattenSeq([j \in DOMAIN st.recs |-> Enc(st.recs[j][1], st.recs[j][2])])

\* C15: what contributes, and all that it contributes.
C15 == /\ Ran
       /\ Sure /\ k > 0 /\ Within => (LastStep.res = "ok") = seen.ok
       /\ Sure /\ Ended /\ Out.fin.res = "ok" => Out.fin.b = ProofBytes /\ Out.fin.ttl = st.ttl
\* C16: the questions asked, awaiting and finishing.
C16 == /\ Ran
       /\ Sure /\ k = 0 => Out.aw0 = B!Awaiting(st) /\ Question(Out.q0) = <<Cases[i].qn, Cases[i].qt>>
       /\ Sure /\ k > 0 => LastStep.aw = B!Awaiting(st)
       /\ Sure /\ k > 0 => {Question(LastStep.q[j]) : j \in DOMAIN LastStep.q} = seen.ask /\ Len(LastStep.q) = Cardinality(seen.ask)
       /\ Sure /\ k > 0 /\ ~seen.ok /\ ~B!Over(st) => LastStep.res = "err"
       /\ Sure /\ Ended => (Out.fin.res = "ok") = B!MayFinish(st)
       /\ Sure /\ Ended /\ Out.fin.res = "ok" => Out.fin.ttl = st.ttl
\* C09 for messages: accepted exactly if well-formed, with the values the bytes encode; nothing else judged.
C09m == C15

InitQ == i \in DOMAIN Cases /\ k = 0 /\ st = B!New /\ seen = None
SpecQ == InitQ /\ [][FALSE]_vars
C23 == Ran /\ QueryOk(Out.q, Cases[i].qn, Cases[i].qt) /\ Out.v = Out.q
       /\ Len(Out.more) = Cardinality(B!Questions({Cases[i].qn}))
       /\ \A j \in DOMAIN Out.more : \E t \in {B!DnskeyT, B!DsT} : QueryOk(Out.more[j], Cases[i].qn, t)
NoteB == Ended => PrintT(IF B!Over(st) THEN "over the limit" ELSE IF B!MayFinish(st) THEN "finished" ELSE "left open")
===========================================================================
