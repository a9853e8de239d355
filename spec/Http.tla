-------------------------------- MODULE Http --------------------------------
(* What the HTTP server has to make of the bytes of a request, and what its  *)
(* response must say. A request is judged by its first line alone. Where the *)
(* text of the properties leaves a choice (a parameter given twice, two      *)
(* reasons for refusal, lines that are too long or no text) the outcome is a *)
(* set of [k, n, t]: "bad" (400), "notfound" (404), or "question", the answer *)
(* to the question n, t: a proof if one can be had and else "notfound".      *)
EXTENDS BuilderMsg
Out1(kind) == [k |-> kind, n |-> <<>>, t |-> 0]
Bad == Out1("bad")
Lost == Out1("notfound")
Nothing == Out1("none")
Limit == 4096
W_GET == <<71, 69, 84>>
W_HTTP11 == <<72, 84, 84, 80, 47, 49, 46, 49>>
W_HTTP10 == <<72, 84, 84, 80, 47, 49, 46, 48>>
W_Path == <<47, 100, 110, 115, 115, 101, 99, 112, 114, 111, 111, 102, 63>>
W_d == <<100>>
W_t == <<116>>
W_TXT == <<84, 88, 84>>
W_TLSA == <<84, 76, 83, 65>>
W_A == <<65>>
W_AAAA == <<65, 65, 65, 65>>
W_clen == <<99, 111, 110, 116, 101, 110, 116, 45, 108, 101, 110, 103, 116, 104>>
W_cc == <<99, 97, 99, 104, 101, 45, 99, 111, 110, 116, 114, 111, 108>>
W_cors == <<97, 99, 99, 101, 115, 115, 45, 99, 111, 110, 116, 114, 111, 108, 45, 97, 108, 108, 111, 119, 45, 111, 114, 105, 103, 105, 110>>
W_maxage == <<109, 97, 120, 45, 97, 103, 101, 61>>
W_smaxage == <<115, 45, 109, 97, 120, 97, 103, 101, 61>>
W_Http1 == <<72, 84, 84, 80, 47, 49, 46>>

Upper(s) == [i \in DOMAIN s |-> IF s[i] \in 97..122 THEN s[i] - 32 ELSE s[i]]
\* Pieces of s between the single characters ch: never empty.
RECURSIVE CutFrom(_, _, _, _)
CutFrom(s, ch, p, acc) ==
  LET at == {q \in p..Len(s) : s[q] = ch} IN
  IF at = {} THEN Append(acc, SubSeq(s, p, Len(s)))
  ELSE LET q == CHOOSE x \in at : \A y \in at : x <= y IN CutFrom(s, ch, q + 1, Append(acc, SubSeq(s, p, q - 1)))
Cut(s, ch) == CutFrom(s, ch, 1, <<>>)
StartsWith(s, w) == Len(s) >= Len(w) /\ SubSeq(s, 1, Len(w)) = w
From(s, p) == SubSeq(s, p, Len(s))

\* The first line break: the place of its first byte, 0 if there is none (near enough).
Break(b) == LET at == {p \in 1..Min2(Len(b) - 1, Limit + 4) : b[p] = 13 /\ b[p + 1] = 10} IN
            IF at = {} THEN 0 ELSE CHOOSE x \in at : \A y \in at : x <= y
\* Whether the bytes are UTF-8 (RFC 3629).
RECURSIVE Utf8From(_, _)
Utf8From(b, p) ==
  LET C(k, lo, hi) == p + k <= Len(b) /\ b[p + k] \in lo..hi IN
  IF p > Len(b) THEN TRUE
  ELSE IF b[p] <= 127 THEN Utf8From(b, p + 1)
  ELSE IF b[p] \in 194..223 THEN C(1, 128, 191) /\ Utf8From(b, p + 2)
  ELSE IF b[p] \in 224..239 THEN C(1, IF b[p] = 224 THEN 160 ELSE 128, IF b[p] = 237 THEN 159 ELSE 191) /\ C(2, 128, 191) /\ Utf8From(b, p + 3)
  ELSE IF b[p] \in 240..244 THEN C(1, IF b[p] = 240 THEN 144 ELSE 128, IF b[p] = 244 THEN 143 ELSE 191) /\ C(2, 128, 191) /\ C(3, 128, 191) /\ Utf8From(b, p + 4)
  ELSE FALSE
Utf8(b) == (\A i \in DOMAIN b : b[i] <= 127) \/ Utf8From(b, 1)

\* The values given to parameter k.
Pair(a) == LET eq == Cut(a, 61) IN <<eq[1], From(a, Len(eq[1]) + 2)>>
Values(args, k) == {Pair(args[i])[2] : i \in {j \in DOMAIN args : Pair(args[j])[1] = k}}
TypeOfText(t) == LET u == Upper(t) IN CASE u = W_TXT -> 16 [] u = W_TLSA -> 52 [] u = W_A -> 1 [] u = W_AAAA -> 28 [] OTHER -> 0
Asked(args) ==
  LET ds == Values(args, W_d) ts == Values(args, W_t) IN
  IF (\E i \in DOMAIN args : 61 \notin {args[i][x] : x \in DOMAIN args[i]}) \/ ds = {} \/ ts = {} THEN {Bad}
  ELSE {IF ~TextOk(d) \/ TypeOfText(t) = 0 THEN Bad ELSE [k |-> "question", n |-> TextName(d), t |-> TypeOfText(t)] : d \in ds, t \in ts}
OfLine(l) ==
  LET parts == Cut(l, 32) IN
  IF Len(parts) # 3 THEN {Bad}
  ELSE LET wrong == parts[1] # W_GET \/ parts[3] \notin {W_HTTP11, W_HTTP10}
           lost == ~StartsWith(parts[2], W_Path)
       IN IF wrong /\ lost THEN {Bad, Lost} ELSE IF wrong THEN {Bad} ELSE IF lost THEN {Lost}
          ELSE Asked(Cut(From(parts[2], Len(W_Path) + 1), 38))
\* What may become of the bytes b of a connection; "none" if it is no whole request.
Outcomes(b) ==
  LET e == Break(b) IN
  IF e = 0 THEN IF Len(b) >= Limit THEN {Bad} ELSE {Nothing}
  ELSE LET l == SubSeq(b, 1, e - 1) IN
       OfLine(l) \cup (IF e + 1 > Limit THEN {Bad} ELSE {}) \cup (IF Utf8(l) THEN {} ELSE {Bad, Lost})

----------------------------------------------------------------------------
\* Responses.
HeadEnd(b) == LET at == {p \in 1..Min2(Len(b) - 3, 1000) : b[p] = 13 /\ b[p + 1] = 10 /\ b[p + 2] = 13 /\ b[p + 3] = 10} IN
              IF at = {} THEN 0 ELSE CHOOSE x \in at : \A y \in at : x <= y
RECURSIVE Lines(_)
Lines(b) == LET e == Break(b) IN IF e = 0 THEN <<b>> ELSE <<SubSeq(b, 1, e - 1)>> \o Lines(From(b, e + 2))
Trim(s) == LET at == {p \in DOMAIN s : s[p] \notin {32, 9}} IN
           IF at = {} THEN <<>> ELSE SubSeq(s, CHOOSE x \in at : \A y \in at : x <= y, CHOOSE x \in at : \A y \in at : x >= y)
Header(l) == LET c == Cut(l, 58) IN <<LowerLabel(c[1]), Trim(From(l, Len(c[1]) + 2))>>
RECURSIVE NumFrom(_, _, _)
NumFrom(s, p, v) == IF p > Len(s) THEN v ELSE LET lo == v[2] * 10 + s[p] - 48 IN NumFrom(s, p + 1, <<v[1] * 10 + lo \div 65536, lo % 65536>>)
Num(s) == IF Len(s) \in 1..10 /\ \A i \in DOMAIN s : s[i] \in 48..57 THEN NumFrom(s, 1, <<0, 0>>) ELSE <<-1, 0>>
\* [ok, code, head: set of <<name, value>>, body]
Response(b) ==
  LET h == HeadEnd(b) IN
  IF h = 0 THEN Fail
  ELSE LET ls == Lines(SubSeq(b, 1, h - 1)) st == Cut(ls[1], 32) IN
       IF ~StartsWith(ls[1], W_Http1) \/ Len(st) < 2 \/ Len(st[2]) # 3 THEN Fail
       ELSE [ok |-> TRUE, code |-> Num(st[2])[2], head |-> {Header(ls[i]) : i \in 2..Len(ls)}, body |-> From(b, h + 4)]
Get(r, k) == {x[2] : x \in {y \in r.head : y[1] = k}}
\* Complete, and open to everyone.
Proper(r) == r.ok /\ Get(r, W_cors) = {<<42>>} /\ Cardinality(Get(r, W_clen)) = 1 /\ {Num(v) : v \in Get(r, W_clen)} = {<<Len(r.body) \div 65536, Len(r.body) % 65536>>}
IsBad(r) == Proper(r) /\ r.code = 400
IsNotFound(r) == Proper(r) /\ r.code = 404
Directives(r) == UNION {{Trim(Cut(v, 44)[i]) : i \in DOMAIN Cut(v, 44)} : v \in Get(r, W_cc)}
Ages(r, w) == {Num(From(x, Len(w) + 1)) : x \in {y \in Directives(r) : StartsWith(y, w)}}
IsProof(r, st) == Proper(r) /\ r.code = 200 /\ r.body = ProofOf(st) /\ Ages(r, W_maxage) = {st.ttl} /\ Ages(r, W_smaxage) \subseteq {st.ttl}
=============================================================================
