----------------------------- MODULE ResolveMC -----------------------------
(* The resolver as a machine: at most as many steps as there are records and  *)
(* 255 more, one of the possible ones each time. For every subset of a pool   *)
(* of aliases and every question: it ends, with one of the declared results,  *)
(* and on consistent sets there is just one.                                  *)
EXTENDS Resolve, TLC, Json, SequencesExt
CONSTANTS MaxSub, Export
L(s) == s
A == <<<<97>>>>          \* a
Bb == <<<<98>>>>         \* b
BA == <<<<98>>, <<97>>>> \* b.a
AB == <<<<97>>, <<98>>>> \* a.b
XA == <<<<120, 97>>>>    \* xa
CBA == <<<<99>>, <<98>>, <<97>>>>
Rt == <<>>
C(o, t) == [t |-> CN, n |-> o, tn |-> t]
D(o, t) == [t |-> DN, n |-> o, tn |-> t]
T(o) == [t |-> 16, n |-> o, x |-> <<120>>]
Pool == <<C(A, Bb), C(Bb, A), C(BA, XA), C(XA, BA), C(A, A), C(Bb, CBA), D(A, Bb), D(Bb, A), D(A, BA), D(Rt, Bb), D(Bb, Rt), D(A, Rt), D(BA, XA),
          T(A), T(Bb), T(BA), T(AB), T(XA), T(Rt)>>
Data == 14..19           \* always present
Qs == {A, Bb, BA, AB, XA, CBA, Rt}
VARIABLES sub, q, name, steps, res
vars == <<sub, q, name, steps, res>>
Rrs == SetToSeq({Pool[j] : j \in sub \cup Data})
Running == {-1}
Init == /\ sub \in {s \in SUBSET (1..13) : Cardinality(s) <= MaxSub}
        /\ q \in Qs /\ name = q /\ steps = 0 /\ res = Running
Limit == Cardinality(sub) + 5
Next == /\ res = Running
        /\ UNCHANGED <<sub, q>>
        /\ IF name = TooLong \/ steps >= Limit THEN res' = {} /\ UNCHANGED <<name, steps>>
           ELSE IF Steps(Rrs, name) = {} THEN res' = Here(Rrs, name) /\ UNCHANGED <<name, steps>>
           ELSE \E x \in Steps(Rrs, name) : name' = x /\ steps' = steps + 1 /\ UNCHANGED res
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
\* The limit is smaller here than 255 more steps; growing names make the difference.
Declared == res # Running => res \in Results(Rrs, q) \/ (steps >= Limit /\ res = {})
Consistent == \A a, b \in sub : a # b => Pool[a].n # Pool[b].n /\ ~(Pool[a].t = DN /\ StrictlyUnder(Pool[b].n, Pool[a].n))
Single == res # Running /\ Consistent => Cardinality(Results(Rrs, q)) = 1
Ends == <>(res # Running)
Exported == Export /\ steps = 0 /\ res = Running => PrintT(ToJson([sub |-> sub, q |-> q]))
============================================================================
