------------------------------ MODULE JudgeE2E ------------------------------
(* Whole exchanges as recorded: zones, a question, what the resolver said    *)
(* and the builder asked, and what the verifier made of the proof.           *)
(* That the resolver told the truth is checked first (Truth).                *)
EXTENDS Zone, IOUtils, Json
Cases == ndJsonDeserialize(IOEnv.CASES)
Block == 10
VARIABLES h, i
vars == <<h, i>>
Init == i = 0 /\ h \in 0..((Len(Cases) - 1) \div Block)
Next == /\ i = 0 /\ h' = h
        /\ \E j \in (h * Block + 1)..Min2(Len(Cases), (h + 1) * Block) : i' = j
Spec == Init /\ [][Next]_vars
C == Cases[i]
Out == C.out
Q == C.names[C.qn]
L == Lookup(C, Q, C.qt)
Named(s) == {<<C.names[s[j][1]], s[j][2], s[j][3]>> : j \in DOMAIN s}
An == Named(C.an)
Au == Named(C.au)
Synth(S, l) == {x \in S : x[2] = T_CNAME /\ C.rd[x[3]].k = "n" /\ <<x[1], C.names[C.rd[x[3]].tn]>> \in l.made}
Denies(l, S) == \A d \in l.den : \E j \in Deny(C, d[1], d[2]) :
                  Rec3(C, C.names[C.rrs[j][1]], {j} \cup SigsAt(C, d[1], C.names[C.rrs[j][1]], C.rrs[j][2])) \subseteq S
Truth == i > 0 => LET l == L IN
  /\ WellSigned(C)
  /\ l.ok
  /\ An \ Synth(An, l) = l.an /\ Cardinality(Synth(An, l)) = Cardinality(l.made)
  /\ Denies(l, Au)
  /\ \A x \in Au : \E j \in DOMAIN C.rrs : x = <<C.names[C.rrs[j][1]], C.rrs[j][2], C.rrs[j][3]>>

Kept == An \cup {x \in Au : x[2] \in {T_NSEC, T_NSEC3} \/ (x[2] = T_RRSIG /\ C.rd[x[3]].ct \in {T_NSEC, T_NSEC3})}
First == Ask(Signers(C, Kept))
\* An NSEC of the zone above and one of the zone itself, at the same name.
TwoNsecs == \E x, y \in Named(Out.order) : x[1] = y[1] /\ x[2] = T_NSEC /\ y[2] = T_NSEC /\ x # y
LastNsec == \E d \in L.den : OnlyLast(C, d[1], d[2])
Asked == {<<Out.asked[j][1], Out.asked[j][2]>> : j \in DOMAIN Out.asked}
C17i(excuse) ==
  LET qs == Close(C, First) l == L IN
  /\ Out.res = "ok"
  \* the questions: exactly those for the chain, each once, within the limit
  /\ Asked = qs \cup {<<Q, C.qt>>} /\ Len(Out.asked) = 1 + Cardinality(qs) /\ Len(Out.asked) <= 10
  /\ Out.refused = 0 /\ Out.left = 0 /\ Out.fin = "ok"
  /\ Named(Out.order) = Kept \cup UNION {Answer(C, q) : q \in qs}
  /\ \/ Out.v = "ok" /\ {x \in Named(Out.rs) : x[2] = C.qt} = l.fin
     \/ excuse /\ (LastNsec \/ TwoNsecs) /\ Out.v = "invalid"
C17 == i > 0 => C17i(TRUE)
C17Strict == i > 0 => C17i(FALSE)
RECURSIVE Joined(_)
Joined(p) == IF p = <<>> THEN "" ELSE " " \o p[1] \o Joined(Tail(p))
Note == i > 0 => PrintT((IF Out.v # "ok" /\ LastNsec THEN "finding nsec-last" ELSE IF Out.v # "ok" /\ TwoNsecs THEN "finding two-nsecs" ELSE ToString(Len(Out.asked)) \o " queries") \o Joined(L.path))
=============================================================================
