------------------------------ MODULE PoolBase ------------------------------
EXTENDS Validation, Json, IOUtils, SequencesExt
RawPool == JsonDeserialize(IOEnv.POOL)
ReadPool == [names |-> RawPool.names, rd |-> RawPool.rd, h |-> RawPool.h, bundles |-> RawPool.bundles, evil |-> RawPool.evil,
             base |-> Range(RawPool.base), honest |-> Range(RawPool.honest), excl |-> Range(RawPool.excl), published |-> Range(RawPool.published)]
\* Subsets of interest: base bundles always, exclusive ones at most once, and at
\* most so many honest ones missing and dishonest ones present.
Within(p, s, miss, bad) ==
  /\ p.base \subseteq s
  /\ Cardinality(p.excl \cap s) <= 1
  /\ Cardinality(p.honest \ s) <= miss
  /\ Cardinality(s \ (p.honest \cup p.base \cup p.excl)) <= bad
CaseOf(p, s) ==
  [names |-> p.names, rd |-> p.rd, h |-> p.h,
   rrs |-> FlattenSeq(SetToSeq({p.bundles[b] : b \in s}))]

=============================================================================
