---------------------------- MODULE Validation ----------------------------
(* What verify_rr_stream has to do with a proof, declaratively.             *)
(*                                                                          *)
(* A case c holds                                                           *)
(*   names  the names that occur (sequences of labels, pairwise distinct)   *)
(*   rd     the distinct record contents, with symbolic keys, digests and   *)
(*          signatures (see below)                                          *)
(*   rrs    the records: <<owner (index of names), type, index of rd>>      *)
(*   h      NSEC3 hashes of the names that may need a denial                *)
(* A key is its key id (kid); a signature says which key id made it (by, 0  *)
(* for garbage), whether its header is the one that was signed (mh), for    *)
(* which owner name (on) and over which set of contents (set). Ideal        *)
(* cryptography: nothing but that verifies.                                 *)
(*                                                                          *)
(* Where the properties leave a choice (which of several good signatures of *)
(* a DNSKEY RRset counts, which of several colliding keys is tried, which   *)
(* of several errors is found first) the result is a set of outcomes.       *)
EXTENDS DnsNames, TLC

T_A == 1  T_NS == 2  T_CNAME == 5  T_TXT == 16  T_AAAA == 28  T_DNAME == 39
T_DS == 43  T_RRSIG == 46  T_NSEC == 47  T_DNSKEY == 48  T_NSEC3 == 50  T_TLSA == 52

SupportedAlg == {8, 10, 13, 14, 15}
\* The algorithms a key id can be used with.
NativeAlgs(kid) ==
  CASE kid \in 1..29 -> {15} [] kid \in {31, 32} -> {13} [] kid = 41 -> {14}
    [] kid \in {51, 52} -> {8, 10} [] OTHER -> {}
\* The anchor whose key the harness holds; the published ones have unknown keys.
IsAnchorKey(k) == k.kid = 1 /\ k.fl = 257 /\ k.pr = 3 /\ k.alg = 15

ZoneFlag(fl) == (fl \div 256) % 2 = 1
UsableKey(k) == k.pr = 3 /\ ZoneFlag(k.fl)

----------------------------------------------------------------------------
\* RFC 4648 base32hex without padding, of 160-bit values (32 characters).
B32Val(ch) == IF ch >= 48 /\ ch <= 57 THEN ch - 48
              ELSE IF ch >= 97 /\ ch <= 118 THEN ch - 87
              ELSE IF ch >= 65 /\ ch <= 86 THEN ch - 55 ELSE -1
Is160(l) == Len(l) = 32 /\ \A i \in 1..32 : B32Val(l[i]) >= 0
\* Comparing as 32 quintets is comparing as 20 octets.
Quint20(b) == \* 20 octets to 32 quintets
  [q \in 1..32 |->
     LET bit == (q - 1) * 5
         o == bit \div 8 + 1
         s == bit % 8
         w == b[o] * 256 + (IF o < 20 THEN b[o + 1] ELSE 0)
     IN (w \div (2 ^ (11 - s))) % 32]
LabelQuints(l) == [i \in 1..32 |-> B32Val(l[i])]

----------------------------------------------------------------------------
N(c, i) == c.names[i]
RRset(c, o, t) == {c.rrs[i][3] : i \in {j \in DOMAIN c.rrs : c.rrs[j][1] = o /\ c.rrs[j][2] = t}}
\* Indices (into rrs) of RRSIGs; g(i) the content.
SigIdx(c) == {i \in DOMAIN c.rrs : c.rrs[i][2] = T_RRSIG}
G(c, i) == c.rd[c.rrs[i][3]]
SOwner(c, i) == c.rrs[i][1]
RootIdx(c) == {i \in DOMAIN c.names : c.names[i] = <<>>}

\* The owner name a signature has to be made for.
SignedOwner(c, i) ==
  LET g == G(c, i) n == N(c, SOwner(c, i)) IN
  IF g.ct # T_NSEC /\ g.lab < Len(n) THEN Wild(Trail(n, g.lab)) ELSE n

MatchesKey(g, k) == k.tag = g.tag /\ k.alg = g.alg /\ UsableKey(k)
SigGood(c, i, k) ==
  LET g == G(c, i) IN
  /\ g.by = k.kid /\ g.by # 0 /\ g.alg \in NativeAlgs(k.kid) /\ g.mh
  /\ g.on > 0 /\ N(c, g.on) = SignedOwner(c, i)
  /\ {g.set[j] : j \in DOMAIN g.set} = RRset(c, SOwner(c, i), g.ct)

\* Possible verdicts on signature i under the candidate keys ks (contents).
SigStatus(c, i, ks) ==
  LET g == G(c, i)
      n == N(c, SOwner(c, i))
      cand == {k \in ks : MatchesKey(g, k)}
      empty == RRset(c, SOwner(c, i), g.ct) = {}
      over == g.ct # T_NSEC /\ g.lab > Len(n)
  IN IF cand = {} \/ empty THEN {"invalid"}
     ELSE IF g.alg \notin SupportedAlg THEN {"skip"} \cup (IF over THEN {"invalid"} ELSE {})
     ELSE IF over THEN {"invalid"}
     ELSE {IF SigGood(c, i, k) THEN "ok" ELSE "invalid" : k \in cand}

----------------------------------------------------------------------------
\* A zone's DNSKEY RRset under its DS RRset (or the root anchors).
ZoneKeyRds(c, z) == RRset(c, z, T_DNSKEY)
IsRoot(c, z) == N(c, z) = <<>>
DsRds(c, z) == RRset(c, z, T_DS)
KnownDigests(c, z) == {c.rd[d].dt : d \in DsRds(c, z)}
Vouches(c, z, d, r) ==
  LET D == c.rd[d] K == c.rd[r] IN
  /\ D.alg = K.alg /\ D.tag = K.tag
  /\ \/ D.dt = 2
     \/ D.dt = 1 /\ KnownDigests(c, z) \cap {2, 4} = {}
  /\ D.okey = r /\ D.cut = 0 /\ D.on > 0 /\ N(c, D.on) = N(c, z)
Vouched(c, z) ==
  IF IsRoot(c, z) THEN {r \in ZoneKeyRds(c, z) : IsAnchorKey(c.rd[r])}
  ELSE {r \in ZoneKeyRds(c, z) : \E d \in DsRds(c, z) : Vouches(c, z, d, r)}
DnskeySigs(c, z) == {i \in SigIdx(c) : SOwner(c, i) = z /\ G(c, i).ct = T_DNSKEY}
Contents(c, S) == {c.rd[r] : r \in S}
Eligible(c, z) ==
  LET vk == Contents(c, Vouched(c, z)) IN
  {i \in DnskeySigs(c, z) : \E k \in vk : MatchesKey(G(c, i), k)}

\* ok: signatures that may be the one relied on; err: errors that may be reported.
KeyStep(c, z) ==
  LET noKnown == ~IsRoot(c, z) /\ KnownDigests(c, z) \cap {1, 2} = {}
      el == IF noKnown THEN {} ELSE Eligible(c, z)
      vk == Contents(c, Vouched(c, z))
      st == [i \in el |-> SigStatus(c, i, vk)]
      ok == {i \in el : "ok" \in st[i]}
      inv == {i \in el : "invalid" \in st[i]}
      sure == {i \in el : st[i] = {"ok"}}
      uns == {i \in el : "skip" \in st[i]}
      onlySha1And4 == ~IsRoot(c, z) /\ KnownDigests(c, z) \cap {1, 2, 4} = {1, 4}
  IN [ok |-> ok,
      err |-> IF noKnown THEN {"unsupported"}
              ELSE (IF inv # {} THEN {"invalid"} ELSE {})
                   \cup (IF sure = {} /\ uns # {} THEN {"unsupported"} ELSE {})
                   \cup (IF sure = {} /\ uns = {} THEN {"invalid"} ELSE {})
                   \cup (IF onlySha1And4 /\ sure = {} THEN {"unsupported", "invalid"} ELSE {})]

----------------------------------------------------------------------------
\* All other signatures that zone z claims to have made.
ZoneSigs(c, z) == {i \in SigIdx(c) : G(c, i).kn = z /\ G(c, i).ct # T_DNSKEY}
LitWild(n, lab) == Len(n) > 0 /\ n[1] = Star /\ lab + 1 = Len(n)
\* Possible verdicts: ok, skip (unsupported algorithm), invalid.
DataStatus(c, z, i) ==
  LET g == G(c, i)
      n == N(c, SOwner(c, i))
      base == SigStatus(c, i, Contents(c, ZoneKeyRds(c, z)))
  IN IF ~Under(n, N(c, z)) THEN {"invalid"}
     ELSE {IF s # "ok" THEN s
           ELSE IF g.ct = T_RRSIG THEN "invalid"
           ELSE IF g.ct \in {T_DS, T_NSEC3} /\ g.lab # Len(n) THEN "invalid"
           ELSE "ok" : s \in base}
NeedsDenial(c, i) ==
  LET g == G(c, i) n == N(c, SOwner(c, i)) IN
  g.ct # T_NSEC /\ g.lab < Len(n) /\ ~LitWild(n, g.lab)

ZoneStep(c, z) ==
  LET k == KeyStep(c, z)
      sigs == ZoneSigs(c, z)
      st == [i \in sigs |-> DataStatus(c, z, i)]
      ok == {i \in sigs : "ok" \in st[i]}
      inv == {i \in sigs : "invalid" \in st[i]}
      stuck == {i \in sigs : st[i] = {"invalid"}}
      passable == k.ok # {} /\ stuck = {}
  IN [kok |-> k.ok, ok |-> ok, pass |-> passable,
      err |-> k.err \cup (IF k.ok # {} /\ inv # {} THEN {"invalid"} ELSE {}),
      next |-> IF passable THEN {SOwner(c, i) : i \in {j \in ok : G(c, j).ct = T_DS}} ELSE {}]

\* Zones reached from the root, with their steps. A zone is walked once.
RECURSIVE Walk(_, _, _)
Walk(c, todo, done) ==
  IF todo = {} THEN done
  ELSE LET z == CHOOSE x \in todo : TRUE
           st == ZoneStep(c, z)
           done2 == [x \in DOMAIN done \cup {z} |-> IF x = z THEN st ELSE done[x]]
       IN Walk(c, (todo \cup st.next) \ DOMAIN done2, done2)
Zones(c) == Walk(c, RootIdx(c), [x \in {} |-> 0])

----------------------------------------------------------------------------
\* Authenticated denial of existence of the next closer name nc, by zone z.
DenialRecs(c, z, ok) ==
  UNION {{<<SOwner(c, i), r>> : r \in RRset(c, SOwner(c, i), G(c, i).ct)}
         : i \in {j \in ok : G(c, j).kn = z /\ G(c, j).ct \in {T_NSEC, T_NSEC3}}}
NsecStrict(own, next, nc) == NameLt(own, nc) /\ NameLt(nc, next) /\ ~Under(next, nc)
\* Pointing back to another name than the apex need not be understood.
NsecWrap(own, next, nc) == ~NameLt(own, next) /\ (NameLt(own, nc) \/ NameLt(nc, next)) /\ own # nc /\ next # nc
Hash(c, nc, it, salt) ==
  LET s == {i \in DOMAIN c.h : N(c, c.h[i].n) = nc /\ c.h[i].it = it /\ c.h[i].salt = salt}
  IN IF s = {} THEN <<>> ELSE c.h[CHOOSE i \in s : TRUE].h
Nsec3Params(c, recs) ==
  {<<c.rd[x[2]].it, c.rd[x[2]].salt>> :
     x \in {y \in recs : c.rd[y[2]].k = "nsec3" /\ c.rd[y[2]].ha = 1 /\ c.rd[y[2]].it <= 2500}}
Nsec3Proves(c, x, nc) ==
  LET r == c.rd[x[2]] own == N(c, x[1]) hh == Hash(c, nc, r.it, r.salt) IN
  /\ r.ha = 1 /\ r.fl = 0 /\ r.it <= 2500
  /\ Len(own) > 0 /\ Is160(own[1]) /\ Len(r.nh) = 20 /\ Len(hh) = 20
  /\ BytesLt(LabelQuints(own[1]), Quint20(hh)) /\ BytesLt(hh, r.nh)
\* The whole hash space of a zone wraps around too.
Nsec3Wrap(c, x, nc) ==
  LET r == c.rd[x[2]] own == N(c, x[1]) hh == Hash(c, nc, r.it, r.salt) IN
  /\ r.ha = 1 /\ r.fl = 0 /\ r.it <= 2500
  /\ Len(own) > 0 /\ Is160(own[1]) /\ Len(r.nh) = 20 /\ Len(hh) = 20
  /\ ~BytesLt(LabelQuints(own[1]), Quint20(r.nh))
  /\ (BytesLt(LabelQuints(own[1]), Quint20(hh)) \/ BytesLt(hh, r.nh))
  /\ LabelQuints(own[1]) # Quint20(hh) /\ hh # r.nh
\* yes: has to be honoured; last: so does the last NSEC of a zone (but see the
\* known findings); may: sound, but need not be recognised.
Denial(c, z, nc, ok) ==
  LET recs == DenialRecs(c, z, ok)
      nsec == {x \in recs : c.rd[x[2]].k = "nsec"}
      nsec3 == {x \in recs : c.rd[x[2]].k = "nsec3"}
      few == Cardinality(Nsec3Params(c, nsec3)) <= 2
      direct(x) == N(c, x[1]) = Trail(N(c, x[1]), Len(N(c, z)) + 1)
      n3 == {x \in nsec3 : Nsec3Proves(c, x, nc) \/ Nsec3Wrap(c, x, nc)}
      yes == \/ \E x \in nsec : NsecStrict(N(c, x[1]), N(c, c.rd[x[2]].next), nc)
             \/ few /\ \E x \in n3 : direct(x)
      last == \E x \in nsec : N(c, c.rd[x[2]].next) = N(c, z) /\ NameLt(N(c, x[1]), nc)
      may == \/ n3 # {}
             \/ \E x \in nsec : NsecWrap(N(c, x[1]), N(c, c.rd[x[2]].next), nc)
  IN IF yes THEN "yes" ELSE IF last THEN "last" ELSE IF may THEN "may" ELSE "no"

----------------------------------------------------------------------------
\* 60*60*24*365*27, the 1997 cutoff
Cutoff == <<851472000 \div 65536, 851472000 % 65536>>
Resolve32(t) == IF PairLt(t, Cutoff) THEN <<t[1] + 65536, t[2]>> ELSE t

Analysis(c) ==
  LET zs == Zones(c)
      dom == DOMAIN zs
      canZones == dom # {} /\ \A z \in dom : zs[z].pass
      ok == UNION {zs[z].ok : z \in dom}
      needs == {<<G(c, i).kn, Trail(N(c, SOwner(c, i)), G(c, i).lab + 1)>> : i \in {j \in ok : NeedsDenial(c, j)}}
      den == IF canZones THEN {Denial(c, x[1], x[2], ok) : x \in needs} ELSE {}
      covered == UNION {{<<SOwner(c, i), G(c, i).ct, r>> : r \in RRset(c, SOwner(c, i), G(c, i).ct)} : i \in {j \in ok : G(c, j).ct # T_DS}}
      auth == {x \in UNION {UNION {{<<SOwner(c, i), G(c, i).ct, r>> : r \in RRset(c, SOwner(c, i), G(c, i).ct)} : i \in zs[z].ok}
                            : z \in {y \in dom : zs[y].kok # {}}} : x[2] \notin {T_DS, T_NSEC, T_NSEC3}}
      multi == {z \in dom : Cardinality({c.rrs[i][3] : i \in zs[z].kok}) > 1}
      one == {z \in dom : z \notin multi /\ zs[z].kok # {}}
      forced == ok \cup {CHOOSE i \in zs[z].kok : TRUE : z \in one}
      choices == IF canZones THEN {f \in [multi -> UNION {zs[z].kok : z \in multi}] : \A z \in multi : f[z] \in zs[z].kok} ELSE {}
      win(f) ==
        LET relied == forced \cup {f[z] : z \in multi} IN
        [vf |-> PairMax({Resolve32(G(c, i).inc) : i \in relied}),
         ex |-> PairMin({Resolve32(G(c, i).exp) : i \in relied}),
         ttl |-> PairMin({G(c, i).ottl : i \in relied})]
      wins == {win(f) : f \in choices}
  IN [zones |-> zs, err |-> UNION {zs[z].err : z \in dom}, can |-> canZones,
      den |-> den, auth |-> auth, covered |-> covered, wins |-> wins, ok |-> ok, needs |-> needs,
      verified |-> {x \in covered : x[2] \notin {T_NSEC, T_NSEC3}}]

\* A success the specification allows.
OkAllowed(a, v, w) ==
  /\ a.can /\ a.covered # {} /\ "no" \notin a.den
  /\ v = a.verified
  /\ w \in a.wins /\ PairLt(w.vf, w.ex)
\* An error the specification allows.
InvalidAllowed(a) ==
  \/ "invalid" \in a.err
  \/ a.can /\ (a.verified = {} \/ ~(a.den \subseteq {"yes"}) \/ \E w \in a.wins : ~PairLt(w.vf, w.ex))
  \/ DOMAIN a.zones = {}
UnsupportedAllowed(a) == "unsupported" \in a.err

\* out is what the code did with c: exactly one copy of each verified record.
OutSet(c, out) == {c.rrs[out.rrs[i]] : i \in DOMAIN out.rrs}
OutOnce(c, out) ==
  /\ \A i \in DOMAIN out.rrs : out.rrs[i] \in DOMAIN c.rrs
  /\ Cardinality(OutSet(c, out)) = Len(out.rrs)
Conforms(c, out) ==
  \/ out.res = "ok" /\ OutOnce(c, out)
       /\ OkAllowed(Analysis(c), OutSet(c, out), [vf |-> out.vf, ex |-> out.ex, ttl |-> out.ttl])
  \/ out.res = "invalid" /\ InvalidAllowed(Analysis(c))
  \/ out.res = "unsupported" /\ UnsupportedAllowed(Analysis(c))

\* Bounds on the work done: each RRSIG is checked at most once, and none after
\* one has failed; hashes only for DS digests and at most two NSEC3 parameter sets.
WorkBounded(c, out) ==
  LET sigs == Cardinality(SigIdx(c))
      keys == Cardinality({i \in DOMAIN c.rrs : c.rrs[i][2] = T_DNSKEY})
      dss == Cardinality({i \in DOMAIN c.rrs : c.rrs[i][2] = T_DS})
      its == {c.rd[c.rrs[i][3]].it : i \in {j \in DOMAIN c.rrs : c.rrs[j][2] = T_NSEC3 /\ c.rd[c.rrs[j][3]].ha = 1 /\ c.rd[c.rrs[j][3]].it <= 2500}}
      maxit == IF its = {} THEN -1 ELSE CHOOSE x \in its : \A y \in its : y <= x
      needs == Cardinality({i \in SigIdx(c) : NeedsDenial(c, i)})
  IN /\ out.sc <= sigs
     /\ out.sf <= 1 /\ (out.sf = 1 => out.res = "invalid")
     /\ out.hs <= keys * (dss + 3) + needs * 2 * (maxit + 1)
===========================================================================
