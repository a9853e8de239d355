--------------------------- MODULE JudgeResolve ---------------------------
EXTENDS Resolve, IOUtils, Json, TLC
Cases == ndJsonDeserialize(IOEnv.CASES)
Block == 25
VARIABLES h, i
vars == <<h, i>>
Init == i = 0 /\ h \in 0..((Len(Cases) - 1) \div Block)
Next == /\ i = 0 /\ h' = h
        /\ \E j \in (h * Block + 1)..Min2(Len(Cases), (h + 1) * Block) : i' = j
Spec == Init /\ [][Next]_vars
Case == Cases[i]
Out == Case.out
C08 == i > 0 => /\ Out.res = "ok"
                /\ Range(Out.got) \in Results(Case.rrs, Case.q) /\ Len(Out.got) = Cardinality(Range(Out.got))
Note == i > 0 => LET r == Results(Case.rrs, Case.q) IN
  PrintT((IF Cardinality(r) > 1 THEN "several" ELSE IF r = {{}} THEN "nothing" ELSE "records") \o (IF Steps(Case.rrs, Case.q) = {} THEN "" ELSE " aliased"))
===========================================================================
