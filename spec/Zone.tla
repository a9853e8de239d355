-------------------------------- MODULE Zone --------------------------------
(* Signed zones and the truthful answers to questions about them: RFC 1034   *)
(* section 4.3.2, RFC 4592 (wildcards), RFC 6672 (DNAME), RFC 4035 section   *)
(* 3.1.3 and RFC 5155 section 7.2.6 (denial for wildcard answers).           *)
(* u holds names, rd, rrs as in Validation.tla, and                          *)
(*   zs     for each of rrs the zone it is in                                *)
(*   zones  the apex (index of names) of each zone, the root first           *)
EXTENDS Validation
ZAll(u) == DOMAIN u.zones
Apex(u, z) == u.names[u.zones[z]]
DeepestOf(u, S) == CHOOSE z \in S : \A y \in S : Len(Apex(u, y)) <= Len(Apex(u, z))
\* The zone a name is in; a zone's DS RRset is in the zone above.
ZoneOf(u, n) == DeepestOf(u, {z \in ZAll(u) : Under(n, Apex(u, z))})
Above(u, z) == ZoneOf(u, Tail(Apex(u, z)))
At(u, z, n, t) == {i \in DOMAIN u.rrs : u.zs[i] = z /\ u.rrs[i][2] = t /\ u.names[u.rrs[i][1]] = n}
SigsAt(u, z, n, t) == {i \in At(u, z, n, T_RRSIG) : u.rd[u.rrs[i][3]].ct = t}
\* What a hash names is not there.
Hashed(u, i) == u.rrs[i][2] = T_NSEC3 \/ (u.rrs[i][2] = T_RRSIG /\ u.rd[u.rrs[i][3]].ct = T_NSEC3)
Exists(u, z, n) == n = Apex(u, z) \/ \E i \in DOMAIN u.rrs : u.zs[i] = z /\ ~Hashed(u, i) /\ Under(u.names[u.rrs[i][1]], n)
Target(u, i) == u.names[u.rd[u.rrs[i][3]].tn]

----------------------------------------------------------------------------
\* The answer: as [set of <<owner, type, rd>>, ...]; owners are names here.
Rec3(u, n, S) == {<<n, u.rrs[i][2], u.rrs[i][3]>> : i \in S}
Dnames(u, z, n) == {d \in {Trail(n, k) : k \in Len(Apex(u, z))..(Len(n) - 1)} : At(u, z, d, T_DNAME) # {}}
Pick(S) == CHOOSE x \in S : TRUE
Nothing == [ok |-> FALSE, an |-> {}, made |-> {}, den |-> {}, fin |-> {}, path |-> <<>>]
RECURSIVE Look(_, _, _, _, _)
Look(u, n, qt, fuel, acc) ==
  LET z == ZoneOf(u, n)
      dn == Dnames(u, z, n)
  IN IF fuel = 0 THEN Nothing
     ELSE IF dn # {} THEN
       LET d == Pick(dn)
           t == Target(u, Pick(At(u, z, d, T_DNAME)))
           m == SubSeq(n, 1, Len(n) - Len(d)) \o t
       IN IF TextLen(m) > 255 THEN Nothing
          ELSE Look(u, m, qt, fuel - 1,
                    [acc EXCEPT !.an = @ \cup Rec3(u, d, At(u, z, d, T_DNAME)) \cup Rec3(u, d, SigsAt(u, z, d, T_DNAME)),
                                !.made = @ \cup {<<n, m>>}, !.path = Append(@, "dname")])
     ELSE
       LET wild == ~Exists(u, z, n)
           ce == LET ks == {k \in Len(Apex(u, z))..Len(n) : Exists(u, z, Trail(n, k))} IN CHOOSE k \in ks : \A j \in ks : j <= k
           src == IF wild THEN Wild(Trail(n, ce)) ELSE n
           ty == IF At(u, z, src, qt) # {} THEN qt ELSE T_CNAME
           S == At(u, z, src, ty)
           acc2 == [acc EXCEPT !.an = @ \cup Rec3(u, n, S) \cup Rec3(u, n, SigsAt(u, z, src, ty)),
                               !.den = @ \cup (IF wild THEN {<<z, Trail(n, ce + 1)>>} ELSE {}),
                               !.path = Append(@, IF wild THEN "wild" ELSE IF ty = qt THEN "data" ELSE "cname")]
       IN IF S = {} THEN Nothing
          ELSE IF ty = qt THEN [acc2 EXCEPT !.ok = TRUE, !.fin = Rec3(u, n, S)]
          ELSE Look(u, Target(u, Pick(S)), qt, fuel - 1, acc2)
Lookup(u, n, qt) == Look(u, n, qt, 12, Nothing)

\* Records of zone z that deny nc: an NSEC or NSEC3 RRset with its signatures.
HashOf(u, nc, it, salt) == Hash(u, nc, it, salt)
Within3(u, i, nc) ==
  LET r == u.rd[u.rrs[i][3]] own == u.names[u.rrs[i][1]] hh == Hash(u, nc, r.it, r.salt) q == LabelQuints(own[1])
  IN Len(hh) = 20 /\ IF BytesLt(q, Quint20(r.nh)) THEN BytesLt(q, Quint20(hh)) /\ BytesLt(hh, r.nh) ELSE BytesLt(q, Quint20(hh)) \/ BytesLt(hh, r.nh)
Within(u, z, i, nc) ==
  LET own == u.names[u.rrs[i][1]] next == u.names[u.rd[u.rrs[i][3]].next]
  IN NameLt(own, nc) /\ (NameLt(nc, next) \/ next = Apex(u, z)) /\ ~Under(next, nc)
Deny(u, z, nc) == {i \in DOMAIN u.rrs : u.zs[i] = z /\ IF u.rrs[i][2] = T_NSEC THEN Within(u, z, i, nc) ELSE u.rrs[i][2] = T_NSEC3 /\ Within3(u, i, nc)}
\* The only denial there is is the last NSEC of the zone.
OnlyLast(u, z, nc) == \A i \in Deny(u, z, nc) : u.rrs[i][2] = T_NSEC /\ u.names[u.rd[u.rrs[i][3]].next] = Apex(u, z)

----------------------------------------------------------------------------
\* The zones are signed as they have to be.
WellSigned(u) ==
  /\ Apex(u, 1) = <<>>
  /\ \A z, y \in ZAll(u) : Apex(u, z) = Apex(u, y) => z = y
  /\ \A z \in ZAll(u) :
       LET keys == At(u, z, Apex(u, z), T_DNSKEY)
           good == {u.rd[u.rrs[i][3]] : i \in keys}
           ksk == IF z = 1 THEN {k \in good : IsAnchorKey(k)}
                  ELSE {u.rd[u.rd[u.rrs[i][3]].okey] : i \in {j \in At(u, Above(u, z), Apex(u, z), T_DS) :
                         LET d == u.rd[u.rrs[j][3]] IN d.dt = 2 /\ d.on = u.zones[z] /\ \E x \in keys : u.rrs[x][3] = d.okey
                                                       /\ d.cut = 0 /\ d.tag = u.rd[d.okey].tag /\ d.alg = u.rd[d.okey].alg}}
           mine == {i \in DOMAIN u.rrs : u.zs[i] = z}
           own(i) == u.names[u.rrs[i][1]]
           SetAt(n, t) == {u.rrs[i][3] : i \in At(u, z, n, t)}
           ok(i, k) == LET g == u.rd[u.rrs[i][3]] n == own(i) IN
             /\ g.by = k.kid /\ g.alg \in NativeAlgs(k.kid) /\ g.mh /\ g.tag = k.tag /\ UsableKey(k)
             /\ u.names[g.kn] = Apex(u, z) /\ u.names[g.on] = n
             /\ g.lab = Len(n) - (IF n # <<>> /\ n[1] = Star THEN 1 ELSE 0)
             /\ {g.set[j] : j \in DOMAIN g.set} = SetAt(n, g.ct)
       IN /\ ksk # {} /\ \A k \in good : k.alg \in NativeAlgs(k.kid)
          /\ \A i \in mine : Under(own(i), Apex(u, z)) /\ (IF u.rrs[i][2] = T_DS THEN Above(u, ZoneOf(u, own(i))) = z /\ Apex(u, ZoneOf(u, own(i))) = own(i)
                                                           ELSE (u.rrs[i][2] \in {T_NSEC, T_RRSIG} \/ ZoneOf(u, own(i)) = z))
          /\ \A i \in mine : u.rrs[i][2] # T_RRSIG => SigsAt(u, z, own(i), u.rrs[i][2]) # {}
          /\ \A i \in mine : u.rrs[i][2] = T_RRSIG => \E k \in good : ok(i, k)
          /\ \E i \in mine : u.rrs[i][2] = T_RRSIG /\ u.rd[u.rrs[i][3]].ct = T_DNSKEY /\ \E k \in ksk : ok(i, k)
          \* one chain of NSECs, or of NSEC3s, around the zone
          /\ \A t \in {T_CNAME, T_DNAME} : \A i, j \in mine : u.rrs[i][2] = t /\ u.rrs[j][2] = t /\ own(i) = own(j) => i = j
----------------------------------------------------------------------------
\* What the proof has to consist of: the zones whose signatures are in S (of
\* <<owner, type, rd>>), and so on up to the root.
Signers(u, S) == {u.names[u.rd[x[3]].kn] : x \in {y \in S : y[2] = T_RRSIG}}
KeyAnswer(u, n) == LET z == ZoneOf(u, n) IN Rec3(u, n, At(u, z, n, T_DNSKEY)) \cup Rec3(u, n, SigsAt(u, z, n, T_DNSKEY))
DsAnswer(u, n) == LET z == Above(u, ZoneOf(u, n)) IN Rec3(u, n, At(u, z, n, T_DS)) \cup Rec3(u, n, SigsAt(u, z, n, T_DS))
Answer(u, q) == IF q[2] = T_DNSKEY THEN KeyAnswer(u, q[1]) ELSE DsAnswer(u, q[1])
Ask(S) == {<<n, T_DNSKEY>> : n \in S} \cup {<<n, T_DS>> : n \in S \ {<<>>}}
RECURSIVE Close(_, _)
Close(u, qs) == LET more == UNION {Ask(Signers(u, Answer(u, q))) : q \in qs} IN IF more \subseteq qs THEN qs ELSE Close(u, qs \cup more)
=============================================================================
