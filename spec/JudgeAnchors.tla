---------------------------- MODULE JudgeAnchors ---------------------------
(* Production builds: the anchors are the two published ones and nothing     *)
(* else. Validation.tla is used with no anchor whose key anyone here holds   *)
(* (IsAnchorKey <- Nobody in the configuration).                             *)
EXTENDS Validation, IOUtils, Json
Nobody(k) == FALSE
Anchors == {
  [n |-> <<>>, tag |-> 19036, alg |-> 8, dt |-> 2, x |-> <<73, 170, 193, 29, 123, 111, 100, 70, 112, 46, 84, 161, 96, 115, 113, 96,
     122, 26, 65, 133, 82, 0, 253, 44, 225, 205, 222, 50, 242, 78, 143, 181>>],
  [n |-> <<>>, tag |-> 20326, alg |-> 8, dt |-> 2, x |-> <<224, 109, 68, 184, 11, 143, 29, 57, 169, 92, 11, 13, 124, 101, 208, 132,
     88, 232, 128, 64, 155, 188, 104, 52, 87, 16, 66, 55, 199, 248, 236, 141>>]}
Cases == ndJsonDeserialize(IOEnv.CASES)
VARIABLE i
Init == i \in DOMAIN Cases
Spec == Init /\ [][FALSE]_i
Case == Cases[i]
Out == Case.out
Ds(d) == [n |-> d.n, tag |-> d.tag, alg |-> d.alg, dt |-> d.dt, x |-> d.x]
C22 == CASE Case.k = "hints" -> Out.res = "hints" /\ {Ds(Out.ds[j]) : j \in DOMAIN Out.ds} = Anchors
         [] Case.k = "real" -> Out.res = IF Case.honest THEN "ok" ELSE "invalid"
         [] Case.k = "world" -> Out.res \in {"ok", "invalid", "unsupported"} /\ (Out.res = "ok" => Analysis(Case).can)
\* No chain of ours is acceptable.
None == Case.k = "world" => ~Analysis(Case).can
Note == PrintT(IF Case.k = "real" THEN IF Case.honest THEN "real" ELSE "real, with forged root keys" ELSE Case.k)
=============================================================================
