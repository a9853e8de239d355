----------------------------- MODULE JsonText -----------------------------
(* RFC 8259 texts as sequences of code points, and what the library's JSON  *)
(* has to say about a record. A value is [k, v]: k is s (string, as code    *)
(* points), n (an unsigned integer, as a pair), a (array), o (object: its   *)
(* members in order), l (true, false or null).                              *)
EXTENDS Wire, Ascii

JFail == [ok |-> FALSE]
At(c, p) == IF p <= Len(c) THEN c[p] ELSE -1
RECURSIVE Ws(_, _)
Ws(c, p) == IF At(c, p) \in {32, 9, 10, 13} THEN Ws(c, p + 1) ELSE p
HexVal(x) == IF x \in 48..57 THEN x - 48 ELSE IF x \in 97..102 THEN x - 87 ELSE IF x \in 65..70 THEN x - 55 ELSE -1
Hex4(c, p) == LET d == [i \in 1..4 |-> HexVal(At(c, p + i - 1))] IN
              IF \E i \in 1..4 : d[i] < 0 THEN -1 ELSE d[1] * 4096 + d[2] * 256 + d[3] * 16 + d[4]
Escaped(e) == CASE e = 34 -> 34 [] e = 92 -> 92 [] e = 47 -> 47 [] e = 98 -> 8 [] e = 102 -> 12 [] e = 110 -> 10 [] e = 114 -> 13 [] e = 116 -> 9 [] OTHER -> -1
RECURSIVE JStr(_, _, _)
JStr(c, p, acc) ==   \* p: after the opening quote
  LET x == At(c, p) IN
  IF x = 34 THEN [ok |-> TRUE, v |-> [k |-> "s", v |-> acc], p |-> p + 1]
  ELSE IF x < 32 THEN JFail
  ELSE IF x # 92 THEN JStr(c, p + 1, Append(acc, x))
  ELSE LET e == At(c, p + 1) IN
       IF e = 117 THEN LET h == Hex4(c, p + 2) IN
            IF h < 0 THEN JFail
            ELSE IF h \notin 55296..57343 THEN JStr(c, p + 6, Append(acc, h))
            ELSE LET g == IF At(c, p + 6) = 92 /\ At(c, p + 7) = 117 THEN Hex4(c, p + 8) ELSE -1 IN
                 IF h <= 56319 /\ g \in 56320..57343 THEN JStr(c, p + 12, Append(acc, 65536 + (h - 55296) * 1024 + g - 56320)) ELSE JFail
       ELSE IF Escaped(e) < 0 THEN JFail ELSE JStr(c, p + 2, Append(acc, Escaped(e)))
\* Digits; leading zeros are not JSON. Values that would not fit are not expected.
RECURSIVE JDigits(_, _, _)
JDigits(c, p, v) ==
  IF At(c, p) \notin 48..57 THEN [ok |-> TRUE, v |-> [k |-> "n", v |-> v], p |-> p]
  ELSE IF v[1] > 100000000 THEN JFail
  ELSE LET lo == v[2] * 10 + At(c, p) - 48 IN JDigits(c, p + 1, <<v[1] * 10 + lo \div 65536, lo % 65536>>)
JNum(c, p) == IF At(c, p) = 48 /\ At(c, p + 1) \in 48..57 THEN JFail ELSE JDigits(c, p, <<0, 0>>)
Word(c, p, w) == p + Len(w) - 1 <= Len(c) /\ SubSeq(c, p, p + Len(w) - 1) = w

RECURSIVE JVal(_, _), JElems(_, _, _), JMembers(_, _, _)
JVal(c, p0) ==
  LET p == Ws(c, p0)
      x == At(c, p)
  IN CASE x = 34 -> JStr(c, p + 1, <<>>)
       [] x \in 48..57 -> JNum(c, p)
       [] x = 91 -> IF At(c, Ws(c, p + 1)) = 93 THEN [ok |-> TRUE, v |-> [k |-> "a", v |-> <<>>], p |-> Ws(c, p + 1) + 1] ELSE JElems(c, p + 1, <<>>)
       [] x = 123 -> IF At(c, Ws(c, p + 1)) = 125 THEN [ok |-> TRUE, v |-> [k |-> "o", v |-> <<>>], p |-> Ws(c, p + 1) + 1] ELSE JMembers(c, p + 1, <<>>)
       [] Word(c, p, S_true) \/ Word(c, p, S_null) -> [ok |-> TRUE, v |-> [k |-> "l", v |-> x], p |-> p + 4]
       [] Word(c, p, S_false) -> [ok |-> TRUE, v |-> [k |-> "l", v |-> x], p |-> p + 5]
       [] OTHER -> JFail
JElems(c, p, acc) ==
  LET r == JVal(c, p) IN
  IF ~r.ok THEN JFail
  ELSE LET q == Ws(c, r.p) a == Append(acc, r.v) IN
       IF At(c, q) = 93 THEN [ok |-> TRUE, v |-> [k |-> "a", v |-> a], p |-> q + 1]
       ELSE IF At(c, q) = 44 THEN JElems(c, q + 1, a) ELSE JFail
JMembers(c, p0, acc) ==
  LET p == Ws(c, p0) IN
  IF At(c, p) # 34 THEN JFail
  ELSE LET ks == JStr(c, p + 1, <<>>) IN
  IF ~ks.ok THEN JFail
  ELSE LET q == Ws(c, ks.p) IN
  IF At(c, q) # 58 THEN JFail
  ELSE LET r == JVal(c, q + 1) IN
  IF ~r.ok THEN JFail
  ELSE LET z == Ws(c, r.p) a == Append(acc, <<ks.v.v, r.v>>) IN
       IF At(c, z) = 125 THEN [ok |-> TRUE, v |-> [k |-> "o", v |-> a], p |-> z + 1]
       ELSE IF At(c, z) = 44 THEN JMembers(c, z + 1, a) ELSE JFail
\* A whole text.
JText(c) == LET r == JVal(c, 1) IN IF r.ok /\ Ws(c, r.p) = Len(c) + 1 THEN [ok |-> TRUE, v |-> r.v] ELSE JFail

\* An object's members as a function, if no key occurs twice.
IsObj(v) == v.k = "o" /\ \A i, j \in DOMAIN v.v : i # j => v.v[i][1] # v.v[j][1]
Member(v, key) == LET i == CHOOSE i \in DOMAIN v.v : v.v[i][1] = key IN v.v[i][2]
Keys(v) == {v.v[i][1] : i \in DOMAIN v.v}

----------------------------------------------------------------------------
Utf8One(x) == IF x < 128 THEN <<x>>
              ELSE IF x < 2048 THEN <<192 + x \div 64, 128 + (x % 64)>>
              ELSE IF x < 65536 THEN <<224 + x \div 4096, 128 + ((x \div 64) % 64), 128 + (x % 64)>>
              ELSE <<240 + x \div 262144, 128 + ((x \div 4096) % 64), 128 + ((x \div 64) % 64), 128 + (x % 64)>>
Utf8(v) == FlattenSeq([i \in DOMAIN v |-> Utf8One(v[i])])
\* Code points of valid UTF-8 from p on; <<-1>> at the end if it is not.
Cont(d, p) == p <= Len(d) /\ d[p] \in 128..191
RECURSIVE Decode(_, _, _)
Decode(d, p, acc) ==
  IF p > Len(d) THEN acc
  ELSE LET b == d[p] IN
    IF b < 128 THEN Decode(d, p + 1, Append(acc, b))
    ELSE IF b \in 194..223 /\ Cont(d, p + 1) THEN Decode(d, p + 2, Append(acc, (b - 192) * 64 + d[p + 1] - 128))
    ELSE IF b \in 224..239 /\ Cont(d, p + 1) /\ Cont(d, p + 2) THEN
      LET x == (b - 224) * 4096 + (d[p + 1] - 128) * 64 + d[p + 2] - 128 IN
      IF x < 2048 \/ x \in 55296..57343 THEN <<-1>> ELSE Decode(d, p + 3, Append(acc, x))
    ELSE IF b \in 240..244 /\ Cont(d, p + 1) /\ Cont(d, p + 2) /\ Cont(d, p + 3) THEN
      LET x == (b - 240) * 262144 + (d[p + 1] - 128) * 4096 + (d[p + 2] - 128) * 64 + d[p + 3] - 128 IN
      IF x < 65536 \/ x > 1114111 THEN <<-1>> ELSE Decode(d, p + 4, Append(acc, x))
    ELSE <<-1>>
\* Text that is a JSON string as it stands has to be given as one.
Plain(d) == LET u == Decode(d, 1, <<>>) IN \A i \in DOMAIN u : u[i] >= 32 /\ u[i] \notin 127..159 /\ u[i] \notin {34, 92}

JN(v, p) == v.k = "n" /\ v.v = p
JInt(v, x) == JN(v, <<x \div 65536, x % 65536>>)
JName(v, n) == v.k = "s" /\ v.v = Text(n)
JHex(v, d) == v.k = "s" /\ Len(v.v) = 2 * Len(d)
              /\ \A i \in DOMAIN d : HexVal(v.v[2 * i - 1]) * 16 + HexVal(v.v[2 * i]) = d[i] /\ HexVal(v.v[2 * i]) >= 0
JBytes(v, d) == v.k = "a" /\ Len(v.v) = Len(d) /\ \A i \in DOMAIN d : JInt(v.v[i], d[i])
JData(v, d) == JHex(v, d) \/ JBytes(v, d)
TypeNames == [t \in Types |->
  CASE t = T_A -> S_A [] t = T_AAAA -> S_AAAA [] t = T_NS -> S_NS [] t = T_TXT -> S_TXT [] t = T_CNAME -> S_CNAME [] t = T_DNAME -> S_DNAME
    [] t = T_TLSA -> S_TLSA [] t = T_DNSKEY -> S_DNSKEY [] t = T_DS -> S_DS [] t = T_RRSIG -> S_RRSIG [] t = T_NSEC -> S_NSEC [] t = T_NSEC3 -> S_NSEC3]
JTypeOf(v) == IF v.k = "n" /\ v.v[1] = 0 THEN v.v[2]
              ELSE IF v.k = "s" /\ \E t \in Types : TypeNames[t] = v.v THEN CHOOSE t \in Types : TypeNames[t] = v.v ELSE -1
JTypes(v, ts) == v.k = "a" /\ Len(v.v) = Len(ts) /\ {JTypeOf(v.v[i]) : i \in DOMAIN v.v} = Range(ts)
JTypeName(t) ==
  CASE t = T_A -> S_a [] t = T_AAAA -> S_aaaa [] t = T_NS -> S_ns [] t = T_TXT -> S_txt [] t = T_CNAME -> S_cname [] t = T_DNAME -> S_dname
    [] t = T_TLSA -> S_tlsa [] t = T_DNSKEY -> S_dnskey [] t = T_DS -> S_ds [] t = T_RRSIG -> S_rrsig [] t = T_NSEC -> S_nsec [] t = T_NSEC3 -> S_nsec3

DataKeys(t) ==
  CASE t \in {T_A, T_AAAA} -> {S_address}
    [] t = T_NS -> {S_ns} [] t = T_CNAME -> {S_canonical_name} [] t = T_DNAME -> {S_delegation_name}
    [] t = T_TXT -> {S_contents}
    [] t = T_TLSA -> {S_usage, S_selector, S_data_ty, S_data}
    [] t = T_DNSKEY -> {S_flags, S_protocol, S_alg, S_pubkey}
    [] t = T_DS -> {S_key_tag, S_alg, S_digest_type, S_digest}
    [] t = T_RRSIG -> {S_signed_record_type, S_alg, S_signed_labels, S_orig_ttl, S_expiration, S_inception, S_key_tag, S_key_name, S_signature}
    [] t = T_NSEC -> {S_next_name, S_types}
    [] t = T_NSEC3 -> {S_hash_algo, S_flags, S_hash_iterations, S_salt, S_next_name_hash, S_types}
\* Value v is what record r says.
Says(v, r) ==
  /\ IsObj(v)
  /\ Keys(v) = {S_type, S_name} \cup DataKeys(r.t)
  /\ LET m(k) == Member(v, k) IN
     /\ m(S_type) = [k |-> "s", v |-> JTypeName(r.t)]
     /\ JName(m(S_name), r.n)
     /\ CASE r.t \in {T_A, T_AAAA} -> JBytes(m(S_address), r.x)
          [] r.t = T_NS -> JName(m(S_ns), r.tn)
          [] r.t = T_CNAME -> JName(m(S_canonical_name), r.tn)
          [] r.t = T_DNAME -> JName(m(S_delegation_name), r.tn)
          [] r.t = T_TXT -> LET w == m(S_contents) IN IF w.k = "s" THEN Utf8(w.v) = r.x ELSE JBytes(w, r.x) /\ ~Plain(r.x)
          [] r.t = T_TLSA -> JInt(m(S_usage), r.u) /\ JInt(m(S_selector), r.s) /\ JInt(m(S_data_ty), r.m) /\ JData(m(S_data), r.x)
          [] r.t = T_DNSKEY -> JInt(m(S_flags), r.fl) /\ JInt(m(S_protocol), r.pr) /\ JInt(m(S_alg), r.alg) /\ JData(m(S_pubkey), r.x)
          [] r.t = T_DS -> JInt(m(S_key_tag), r.tag) /\ JInt(m(S_alg), r.alg) /\ JInt(m(S_digest_type), r.dt) /\ JData(m(S_digest), r.x)
          [] r.t = T_RRSIG -> JInt(m(S_signed_record_type), r.ct) /\ JInt(m(S_alg), r.alg) /\ JInt(m(S_signed_labels), r.lab) /\ JN(m(S_orig_ttl), r.ottl)
                /\ JN(m(S_expiration), r.exp) /\ JN(m(S_inception), r.inc) /\ JInt(m(S_key_tag), r.tag) /\ JName(m(S_key_name), r.kn) /\ JData(m(S_signature), r.x)
          [] r.t = T_NSEC -> JName(m(S_next_name), r.next) /\ JTypes(m(S_types), r.types)
          [] r.t = T_NSEC3 -> JInt(m(S_hash_algo), r.ha) /\ JInt(m(S_flags), r.fl) /\ JInt(m(S_hash_iterations), r.it) /\ JData(m(S_salt), r.salt)
                /\ JData(m(S_next_name_hash), r.nh) /\ JTypes(m(S_types), r.types)
===========================================================================
