---------------------------- MODULE JudgeVerify ---------------------------
(* Decides, for a file of cases with what the code did on each (out), the   *)
(* properties about verification. Every state after the first is one case;  *)
(* one invariant per property. out.res is ok, invalid, unsupported, or      *)
(* panic, hang, crash (the code did not return a result).                   *)
EXTENDS Validation, IOUtils, Json

Cases == ndJsonDeserialize(IOEnv.CASES)
Block == 25
VARIABLES h, i
vars == <<h, i>>
Init == i = 0 /\ h \in 0..((Len(Cases) - 1) \div Block)
Next == /\ i = 0 /\ h' = h
        /\ \E j \in (h * Block + 1)..Min2(Len(Cases), (h + 1) * Block) : i' = j
Spec == Init /\ [][Next]_vars

Case == Cases[i]
Out == Case.out
W == [vf |-> Out.vf, ex |-> Out.ex, ttl |-> Out.ttl]
IsOk == Out.res = "ok"
Returned == Out.res \in {"ok", "invalid", "unsupported"}

\* Nothing that is wrong with the zones, keys or signatures could be reported.
Clean(a) == a.can /\ a.err = {}
Windowed(a) == \A w \in a.wins : PairLt(w.vf, w.ex)
\* Has to be accepted.
MustL(a) == Clean(a) /\ Windowed(a) /\ a.verified # {} /\ a.den \subseteq {"yes", "last"}
Must(a) == Clean(a) /\ Windowed(a) /\ a.verified # {} /\ a.den \subseteq {"yes"}

C01 == i > 0 /\ IsOk => OutSet(Case, Out) \subseteq Analysis(Case).auth
C02 == i > 0 => LET a == Analysis(Case) IN
       Must(a) => IsOk /\ OutOnce(Case, Out) /\ OutSet(Case, Out) = a.verified
\* Without the known finding.
C02Strict == i > 0 => LET a == Analysis(Case) IN
       MustL(a) => IsOk /\ OutOnce(Case, Out) /\ OutSet(Case, Out) = a.verified
C04 == i > 0 /\ IsOk => LET a == Analysis(Case) IN a.can => W \in a.wins /\ PairLt(W.vf, W.ex)
C05 == i > 0 => LET a == Analysis(Case) IN
       /\ IsOk => "no" \notin a.den
       \* DS and NSEC3 through a wildcard
       /\ IsOk => \A z \in DOMAIN a.zones : \A s \in ZoneSigs(Case, z) :
                    (G(Case, s).ct \in {T_DS, T_NSEC3} /\ a.zones[z].kok # {}
                       /\ "ok" \in SigStatus(Case, s, Contents(Case, ZoneKeyRds(Case, z))))
                      => G(Case, s).lab = Len(N(Case, SOwner(Case, s)))
       /\ Must(a) /\ a.needs # {} => IsOk
\* What the error says, and that failures are failures of the whole.
C06 == i > 0 => LET a == Analysis(Case) IN
       /\ IsOk => a.can
       /\ Out.res = "unsupported" => UnsupportedAllowed(a)
       /\ Out.res = "invalid" => InvalidAllowed(a)
       /\ Returned => Out.sf <= 1 /\ (Out.sf = 1 => Out.res = "invalid")
C07 == i > 0 => Returned /\ WorkBounded(Case, Out)
All == i > 0 => Returned /\ Conforms(Case, Out)

\* One line per case for the evidence: what kind of case this was.
Note == i > 0 => LET a == Analysis(Case) IN
  PrintT((IF Must(a) THEN "must-accept" ELSE IF MustL(a) /\ ~IsOk THEN "finding nsec-last" ELSE IF a.can /\ "no" \notin a.den THEN "may-accept" ELSE "must-reject")
         \o " zones=" \o ToString(Cardinality(DOMAIN a.zones)) \o (IF a.err = {} THEN "" ELSE " faulty")
         \o (IF a.needs = {} THEN "" ELSE " wildcard"))
===========================================================================
