-------------------------------- MODULE Wire --------------------------------
(* Records and their wire form. A record is [t, n, ...]: type, owner (labels, *)
(* lower case) and the fields of its type; 32-bit values are pairs. Parsing is *)
(* a function of the bytes; its result says ok, and, where the formats leave   *)
(* room, lax (refusing is fine, too) or free (so is any value).                *)
EXTENDS DnsNames, SequencesExt

T_A == 1  T_NS == 2  T_CNAME == 5  T_TXT == 16  T_AAAA == 28  T_DNAME == 39
T_DS == 43  T_RRSIG == 46  T_NSEC == 47  T_DNSKEY == 48  T_NSEC3 == 50  T_TLSA == 52
NameTypes == {T_NS, T_CNAME, T_DNAME}
Types == {T_A, T_NS, T_CNAME, T_TXT, T_AAAA, T_DNAME, T_DS, T_RRSIG, T_NSEC, T_DNSKEY, T_NSEC3, T_TLSA}

Fail == [ok |-> FALSE]
U16(b, p) == b[p] * 256 + b[p + 1]
U32(b, p) == <<U16(b, p), U16(b, p + 2)>>
Slice(b, p, e) == SubSeq(b, p, e - 1)   \* bytes p .. e-1

----------------------------------------------------------------------------
\* The name at p of b, no byte of it (before the first pointer) at or after e.
\* Pointers are positions in b, allowed if ptr; tl is the text length so far.
RECURSIVE NameAt(_, _, _, _, _, _, _, _)
NameAt(b, p, e, ptr, acc, tl, jumps, lax) ==
  IF p >= e THEN Fail
  ELSE LET l == b[p] IN
    IF l = 0 THEN [ok |-> TRUE, n |-> acc, p |-> p + 1, lax |-> lax]
    ELSE IF l >= 192 THEN
      IF ~ptr \/ p + 1 >= e \/ jumps >= 300 THEN Fail
      ELSE LET o == (l - 192) * 256 + b[p + 1] IN
           IF o >= Len(b) THEN Fail
           ELSE LET r == NameAt(b, o + 1, Len(b) + 1, ptr, acc, tl, jumps + 1, lax \/ o + 1 >= p \/ jumps >= 126)
                IN IF r.ok THEN [r EXCEPT !.p = p + 2] ELSE Fail
    ELSE IF l > 63 \/ p + l >= e \/ tl + l + 1 > 255 THEN Fail
    ELSE LET lab == Slice(b, p + 1, p + 1 + l) IN
         IF ~LabelOk(lab) THEN Fail
         ELSE NameAt(b, p + 1 + l, e, ptr, Append(acc, LowerLabel(lab)), tl + l + 1, jumps, lax)
ReadName(b, p, e, ptr) == NameAt(b, p, e, ptr, <<>>, 0, 0, FALSE)

\* Type bitmaps (RFC 4034 section 4.1.2).
RECURSIVE Bits(_, _, _, _)
Bits(b, p, k, acc) == \* set bits of the octet b[p], types from k on
  LET bit(i) == (b[p] \div (2 ^ (7 - i))) % 2 IN
  acc \o SelectSeq([i \in 1..8 |-> IF bit(i - 1) = 1 THEN k + i - 1 ELSE -1], LAMBDA x : x >= 0)
RECURSIVE Octets(_, _, _, _, _)
Octets(b, p, l, k, acc) == IF l = 0 THEN acc ELSE Octets(b, p + 1, l - 1, k + 8, IF b[p] = 0 THEN acc ELSE Bits(b, p, k, acc))
RECURSIVE BitmapAt(_, _, _, _, _, _, _)
BitmapAt(b, p, e, last, acc, lax, free) ==
  IF p = e THEN [ok |-> TRUE, types |-> acc, lax |-> lax, free |-> free]
  ELSE IF p + 2 > e THEN Fail
  ELSE LET w == b[p] l == b[p + 1] IN
    IF l > 32 \/ p + 2 + l > e THEN Fail
    ELSE LET new == Octets(b, p + 2, l, w * 256, <<>>)
             odd == w <= last \/ l = 0 \/ b[p + 1 + l] = 0
         IN BitmapAt(b, p + 2 + l, e, w, acc \o new, lax \/ odd, free \/ w <= last)
ReadBitmap(b, p, e) == BitmapAt(b, p, e, -1, <<>>, FALSE, FALSE)

\* Character strings.
RECURSIVE StringsAt(_, _, _, _)
StringsAt(b, p, e, acc) ==
  IF p = e THEN [ok |-> TRUE, x |-> acc]
  ELSE IF p + 1 + b[p] > e THEN Fail
  ELSE StringsAt(b, p + 1 + b[p], e, acc \o Slice(b, p + 1, p + 1 + b[p]))

Ok(v, lax, free) == [ok |-> TRUE, v |-> v, lax |-> lax, free |-> free]
\* The data of a record of type t in bytes p .. e-1.
Rdata(t, b, p, e, ptr) ==
  LET len == e - p IN
  CASE t = T_A -> IF len = 4 THEN Ok([x |-> Slice(b, p, e)], FALSE, FALSE) ELSE Fail
    [] t = T_AAAA -> IF len = 16 THEN Ok([x |-> Slice(b, p, e)], FALSE, FALSE) ELSE Fail
    [] t \in NameTypes ->
         LET r == ReadName(b, p, e, ptr) IN
         IF r.ok /\ r.p = e THEN Ok([tn |-> r.n], r.lax, FALSE) ELSE Fail
    [] t = T_TXT ->
         LET r == StringsAt(b, p, e, <<>>) IN
         IF r.ok THEN Ok([x |-> r.x], len = 0, FALSE) ELSE Fail
    [] t = T_TLSA -> IF len >= 3 THEN Ok([u |-> b[p], s |-> b[p + 1], m |-> b[p + 2], x |-> Slice(b, p + 3, e)], FALSE, FALSE) ELSE Fail
    [] t = T_DNSKEY -> IF len >= 4 THEN Ok([fl |-> U16(b, p), pr |-> b[p + 2], alg |-> b[p + 3], x |-> Slice(b, p + 4, e)], FALSE, FALSE) ELSE Fail
    [] t = T_DS -> IF len >= 4 THEN Ok([tag |-> U16(b, p), alg |-> b[p + 2], dt |-> b[p + 3], x |-> Slice(b, p + 4, e)], FALSE, FALSE) ELSE Fail
    [] t = T_RRSIG ->
         IF len < 19 THEN Fail
         ELSE LET r == ReadName(b, p + 18, e, ptr) IN
              IF ~r.ok THEN Fail
              ELSE IF 18 + TextLen(r.n) + 1 + (e - r.p) > 65535 + (IF r.n = <<>> THEN 1 ELSE 0) THEN Fail   \* not a record any more once uncompressed
              ELSE Ok([ct |-> U16(b, p), alg |-> b[p + 2], lab |-> b[p + 3], ottl |-> U32(b, p + 4), exp |-> U32(b, p + 8),
                       inc |-> U32(b, p + 12), tag |-> U16(b, p + 16), kn |-> r.n, x |-> Slice(b, r.p, e)], r.lax, FALSE)
    [] t = T_NSEC ->
         LET r == ReadName(b, p, e, ptr) IN
         IF ~r.ok THEN Fail
         ELSE LET m == ReadBitmap(b, r.p, e) IN
              IF ~m.ok THEN Fail ELSE Ok([next |-> r.n, types |-> m.types], r.lax \/ m.lax \/ r.p = e, m.free)
    [] t = T_NSEC3 ->
         IF len < 6 THEN Fail
         ELSE LET sl == b[p + 4] IN
              IF p + 5 + sl >= e THEN Fail
              ELSE LET hl == b[p + 5 + sl] q == p + 6 + sl IN
                   IF q + hl > e THEN Fail
                   ELSE LET m == ReadBitmap(b, q + hl, e) IN
                        IF ~m.ok THEN Fail
                        ELSE Ok([ha |-> b[p], fl |-> b[p + 1], it |-> U16(b, p + 2), salt |-> Slice(b, p + 5, p + 5 + sl),
                                 nh |-> Slice(b, q, q + hl), types |-> m.types], m.lax \/ hl = 0, m.free)
    [] OTHER -> Fail

\* One record at p; e is the end of the input.
Record(b, p, e, ptr) ==
  LET nm == ReadName(b, p, e, ptr) IN
  IF ~nm.ok \/ nm.p + 10 > e THEN Fail
  ELSE LET q == nm.p
           t == U16(b, q)
           d == q + 10
           f == d + U16(b, q + 8)
       IN IF U16(b, q + 2) # 1 \/ f > e \/ t \notin Types THEN Fail
          ELSE LET r == Rdata(t, b, d, f, ptr) IN
               IF ~r.ok THEN Fail
               ELSE [ok |-> TRUE, rr |-> [t |-> t, n |-> nm.n] @@ r.v, ttl |-> U32(b, q + 4), p |-> f,
                     lax |-> nm.lax \/ r.lax, free |-> r.free]
RECURSIVE StreamFrom(_, _, _, _, _)
StreamFrom(b, p, acc, lax, free) ==
  IF p > Len(b) THEN [ok |-> TRUE, rrs |-> acc, lax |-> lax, free |-> free]
  ELSE LET r == Record(b, p, Len(b) + 1, FALSE) IN
       IF ~r.ok THEN Fail ELSE StreamFrom(b, r.p, Append(acc, r.rr), lax \/ r.lax, free \/ r.free)
Stream(b) == StreamFrom(b, 1, <<>>, FALSE, FALSE)

----------------------------------------------------------------------------
\* Writing.
B16(x) == <<x \div 256, x % 256>>
B32(x) == B16(x[1]) \o B16(x[2])
EncName(n) == WireName(Lower(n))
RECURSIVE EncStrings(_)
EncStrings(x) == IF Len(x) <= 255 THEN <<Len(x)>> \o x ELSE <<255>> \o SubSeq(x, 1, 255) \o EncStrings(SubSeq(x, 256, Len(x)))
RECURSIVE EncWindows(_, _)
EncWindows(types, w) ==
  IF types = <<>> THEN <<>>
  ELSE LET v == types[1] \div 256
           mine == SelectSeq(types, LAMBDA t : t \div 256 = v)
           rest == SelectSeq(types, LAMBDA t : t \div 256 # v)
           lo == {mine[i] % 256 : i \in DOMAIN mine}
           n == (CHOOSE x \in lo : \A y \in lo : y <= x) \div 8 + 1
           oct(i) == LET bits == {x % 8 : x \in {y \in lo : y \div 8 = i - 1}} IN
                     FoldSeq(LAMBDA x, a : a + x, 0, SetToSeq({2 ^ (7 - x) : x \in bits}))
       IN <<v, n>> \o [i \in 1..n |-> oct(i)] \o EncWindows(rest, 0)
EncTypes(types) == EncWindows(types, 0)   \* types ascending
EncRdata(r) ==
  CASE r.t \in {T_A, T_AAAA} -> r.x
    [] r.t \in NameTypes -> EncName(r.tn)
    [] r.t = T_TXT -> EncStrings(r.x)
    [] r.t = T_TLSA -> <<r.u, r.s, r.m>> \o r.x
    [] r.t = T_DNSKEY -> B16(r.fl) \o <<r.pr, r.alg>> \o r.x
    [] r.t = T_DS -> B16(r.tag) \o <<r.alg, r.dt>> \o r.x
    [] r.t = T_RRSIG -> B16(r.ct) \o <<r.alg, r.lab>> \o B32(r.ottl) \o B32(r.exp) \o B32(r.inc) \o B16(r.tag) \o EncName(r.kn) \o r.x
    [] r.t = T_NSEC -> EncName(r.next) \o EncTypes(r.types)
    [] r.t = T_NSEC3 -> <<r.ha, r.fl>> \o B16(r.it) \o <<Len(r.salt)>> \o r.salt \o <<Len(r.nh)>> \o r.nh \o EncTypes(r.types)
Enc(r, ttl) == LET d == EncRdata(r) IN EncName(r.n) \o B16(r.t) \o <<0, 1>> \o B32(ttl) \o B16(Len(d)) \o d

\* RFC 4034 sections 3.1.8.1 and 6: what a signature g is made over, for an RRset.
SignedOwnerOf(g, owner) == IF g.ct # T_NSEC /\ g.lab < Len(owner) THEN Wild(Trail(owner, g.lab)) ELSE owner
SignedOver(g, owner, datas) ==
  LET ds == SetToSortSeq(datas, BytesLt)
      on == EncName(SignedOwnerOf(g, owner))
      one(d) == on \o B16(g.ct) \o <<0, 1>> \o B32(g.ottl) \o B16(Len(d)) \o d
  IN B16(g.ct) \o <<g.alg, g.lab>> \o B32(g.ottl) \o B32(g.exp) \o B32(g.inc) \o B16(g.tag) \o EncName(g.kn)
     \o FlattenSeq([i \in DOMAIN ds |-> one(ds[i])])
SignedData(g, owner, set) == SignedOver(g, owner, {EncRdata(r) : r \in set})

\* RFC 4034 appendix B.
TagSum(d) == FoldLeft(LAMBDA a, j : a + (IF j % 2 = 1 THEN d[j] * 256 ELSE d[j]), 0, [j \in DOMAIN d |-> j])
KeyTag(r) == LET a == TagSum(EncRdata(r)) IN (a + ((a \div 65536) % 65536)) % 65536
=============================================================================
