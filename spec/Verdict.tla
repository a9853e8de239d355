------------------------------ MODULE Verdict ------------------------------
(* The JSON text for what the library makes of a proof.                      *)
EXTENDS JsonText
\* The text for a verdict v.
Object(t, keys) == t.ok /\ IsObj(t.v) /\ Keys(t.v) = keys
VerdictOk(v) ==
  LET t == JText(v.c) IN
  IF v.lib.res = "ok" THEN
    /\ Object(t, {S_valid_from, S_expires, S_max_cache_ttl, S_verified_rrs})
    /\ JN(Member(t.v, S_valid_from), v.lib.vf) /\ JN(Member(t.v, S_expires), v.lib.ex) /\ JN(Member(t.v, S_max_cache_ttl), v.lib.ttl)
    /\ LET a == Member(t.v, S_verified_rrs) IN a.k = "a" /\ Len(a.v) = Len(v.lib.rrs) /\ \A j \in DOMAIN a.v : Says(a.v[j], v.lib.rrs[j])
  ELSE Object(t, {S_error}) /\ Member(t.v, S_error) = [k |-> "s", v |-> IF v.lib.res = "invalid" THEN S_Invalid ELSE S_UnsupportedAlgorithm]
=============================================================================
