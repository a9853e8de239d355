------------------------------ MODULE Resolve ------------------------------
(* Following aliases in a set of verified records (rrs: sequence of records). *)
(* From a name there is one step per CNAME at it and per DNAME at a proper    *)
(* ancestor; where a zone is inconsistent there may be several. A name with   *)
(* no step is where the records are. TooLong stands for a name that cannot be.*)
EXTENDS DnsNames
TooLong == <<<<-1>>>>
CN == 5
DN == 39
Rewrite(n, d, t) == LET x == SubSeq(n, 1, Len(n) - Len(d)) \o t IN IF TextLen(x) > 255 THEN TooLong ELSE x
Steps(rrs, n) ==
  {rrs[j].tn : j \in {x \in DOMAIN rrs : rrs[x].t = CN /\ rrs[x].n = n}}
  \cup {Rewrite(n, rrs[j].n, rrs[j].tn) : j \in {x \in DOMAIN rrs : rrs[x].t = DN /\ StrictlyUnder(n, rrs[x].n)}}
Here(rrs, n) == {j \in DOMAIN rrs : rrs[j].n = n}
\* All that may be returned. A layer is the names after so many steps; when one
\* comes again aliases do not end and nothing is returned. Ways over Fuel steps
\* (renaming can count) need not be followed to their end, but may be, and sets
\* of aliases with very many ways (layers over Wide) likewise.
Wide == 6
Fuel(rrs) == Len(rrs) + 255
RECURSIVE Go(_, _, _, _, _, _)
Go(rrs, layer, mark, next, k, res) ==   \* mark: an earlier layer, renewed at step next
  LET st == {<<n, Steps(rrs, n)>> : n \in layer \ {TooLong}}
      ends == {x[1] : x \in {y \in st : y[2] = {}}}
      res2 == res \cup {Here(rrs, n) : n \in ends} \cup (IF TooLong \in layer THEN {{}} ELSE {})
      more == UNION {x[2] : x \in st}
  IN IF more = {} THEN res2
     ELSE IF Cardinality(more) > Wide THEN {{}} \cup {Here(rrs, rrs[x].n) : x \in DOMAIN rrs}
     ELSE IF more = mark THEN res2 \cup {{}}
     ELSE IF k >= Fuel(rrs) THEN {{}} \cup {Here(rrs, rrs[x].n) : x \in DOMAIN rrs}
     ELSE IF k = next THEN Go(rrs, more, more, 2 * next, k + 1, res2) ELSE Go(rrs, more, mark, next, k + 1, res2)
Results(rrs, q) == Go(rrs, {q}, {q}, 1, 0, {})
============================================================================
