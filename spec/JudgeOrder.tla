----------------------------- MODULE JudgeOrder -----------------------------
(* One proof, presented in several ways: its records in other orders, some  *)
(* of them repeated, the letters of owner names in other case. out.v holds  *)
(* what the code did with each; records are <<owner, type, rd>>.             *)
EXTENDS Validation, IOUtils, Json
Cases == ndJsonDeserialize(IOEnv.CASES)
Block == 25
VARIABLES h, i
vars == <<h, i>>
Init == i = 0 /\ h \in 0..((Len(Cases) - 1) \div Block)
Next == /\ i = 0 /\ h' = h
        /\ \E j \in (h * Block + 1)..Min2(Len(Cases), (h + 1) * Block) : i' = j
Spec == Init /\ [][Next]_vars
Case == Cases[i]
Out == Case.out
V(j) == Out.v[j]
\* No failing signature, no ambiguous key, one signature to rely on per DNSKEY RRset.
KeySigs(c, z) == {G(c, s) : s \in {x \in DnskeySigs(c, z) : G(c, x).alg \in SupportedAlg}}
Simple(c, a) ==
  \A z \in DOMAIN a.zones :
    /\ \A s \in Eligible(c, z) : SigStatus(c, s, Contents(c, Vouched(c, z))) \in {{"ok"}, {"skip"}}
    /\ Cardinality({G(c, s) : s \in a.zones[z].kok}) <= 1
    /\ Cardinality(Nsec3Params(c, DenialRecs(c, z, a.ok))) <= 2
    /\ a.zones[z].kok # {} => \A s \in ZoneSigs(c, z) : DataStatus(c, z, s) \in {{"ok"}, {"skip"}}
SameAs(x, y) ==
  /\ (x.res = "ok") = (y.res = "ok")
  /\ x.res = "ok" => /\ Range(x.rs) = Range(y.rs)
                     /\ x.vf = y.vf /\ x.ex = y.ex /\ x.ttl = y.ttl
C03 == i > 0 =>
  /\ Out.res = "ok"
  /\ \A j \in DOMAIN Out.v : V(j).res = "ok" => Cardinality(Range(V(j).rs)) = Len(V(j).rs)
  /\ Simple(Case, Analysis(Case)) => \A j \in DOMAIN Out.v : SameAs(V(1), V(j))
Note == i > 0 => PrintT(IF ~Simple(Case, Analysis(Case)) THEN "outside the property" ELSE "alike, " \o V(1).res)
=============================================================================
