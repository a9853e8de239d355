----------------------------- MODULE JudgeWire ----------------------------
(* Decides the properties about records, names and their encodings on cases *)
(* run by the code: one case per state, one invariant per property.         *)
EXTENDS JsonText, IOUtils, Json, TLC

Cases == ndJsonDeserialize(IOEnv.CASES)
Block == 25
VARIABLES h, i
vars == <<h, i>>
Init == i = 0 /\ h \in 0..((Len(Cases) - 1) \div Block)
Next == /\ i = 0 /\ h' = h
        /\ \E j \in (h * Block + 1)..Min2(Len(Cases), (h + 1) * Block) : i' = j
Spec == Init /\ [][Next]_vars
Case == Cases[i]
Out == Case.out

\* Parsing a stream of records. The result is a function of the bytes.
C09One == LET e == Stream(Case.b) IN
  /\ Out.res \in {"ok", "err"}
  /\ Out.res = "ok" => e.ok
  /\ Out.res = "err" => ~e.ok \/ e.lax
  /\ Out.res = "ok" /\ e.ok /\ ~e.free => Out.rrs = e.rrs
\* A stream of k times the same records and then others holds just those: reading
\* a stream is a homomorphism (C09ManySelf), so there is no need to read all of it.
C09Many == LET u == Stream(Case.u) t == Stream(Case.tail) IN
  /\ Out.res \in {"ok", "err"}
  /\ Out.res = "ok" /\ u.ok => t.ok
  /\ Out.res = "err" => ~u.ok \/ u.lax \/ ~t.ok \/ t.lax
  /\ Out.res = "ok" /\ u.ok /\ t.ok /\ ~u.free /\ ~t.free =>
       /\ Out.len = Case.k * Len(u.rrs) + Len(t.rrs)
       /\ Out.first = u.rrs /\ Out.again /\ Out.rest = t.rrs
C09 == i > 0 => IF "u" \in DOMAIN Case THEN C09Many ELSE C09One
C09ManySelf == i > 0 /\ "u" \in DOMAIN Case =>
  LET u == Stream(Case.u) t == Stream(Case.tail)
      w == Stream(Case.u \o Case.u \o Case.tail)
  IN u.ok => /\ w.ok <=> t.ok
             /\ t.ok => w.rrs = u.rrs \o u.rrs \o t.rrs /\ w.lax = (u.lax \/ t.lax) /\ w.free = (u.free \/ t.free)

\* Writing and reading back.
C10 == i > 0 =>
  /\ Out.res = "ok"
  /\ Out.b = Case.pre \o Enc(Case.rr, Case.ttl)
  /\ Out.back.res = "ok" /\ Out.back.rrs = <<Case.rr, Case.next>> /\ Out.back.eq
  /\ Case.rr.t = T_DNSKEY => Out.tag = KeyTag(Case.rr)
\* The specification's own reader and writer are inverse on the same records.
C10Self == i > 0 => LET e == Stream(Enc(Case.rr, Case.ttl)) IN e.ok /\ ~e.free /\ e.rrs = <<Case.rr>>

C12 == i > 0 =>
  /\ Out.res \in {"ok", "err"}
  /\ (Out.res = "ok") <=> TextOk(Case.c)
  /\ Out.res = "ok" => LET n == TextName(Case.c) IN
       /\ Out.txt = Text(n) /\ Out.shown = Text(n) /\ Out.deref = Text(n)
       /\ Out.labels = Len(n)
       /\ \A k \in DOMAIN Case.ns : Out.tr[k] = IF Case.ns[k] > Len(n) THEN <<-1>> ELSE Text(Trail(n, Case.ns[k]))
       /\ Out.cases

C13 == i > 0 => Out.res = "ok" /\ LET r == JText(Out.c) IN r.ok /\ Says(r.v, Case.rr)

Sign(a, b) == IF BytesLt(a, b) THEN -1 ELSE IF a = b THEN 0 ELSE 1
C14 == i > 0 =>
  /\ Out.res = "ok"
  /\ LET D == DOMAIN Case.rrs
         r == Case.rrs
         c == Out.cmp
     IN /\ Out.part = c
        /\ \A x, y \in D :
             /\ c[x][y] = -c[y][x] /\ c[x][y] \in -1..1
             /\ (Out.eq[x][y] = 1) <=> (r[x] = r[y])
             /\ (c[x][y] = 0) <=> (r[x] = r[y])
             /\ Out.inner[x][y] = IF r[x].t = r[y].t THEN c[x][y] ELSE 2
             /\ r[x].t = T_TXT /\ r[y].t = T_TXT /\ r[x].n = r[y].n => c[x][y] = Sign(EncRdata(r[x]), EncRdata(r[y]))
        /\ \A x, y, z \in D : c[x][y] <= 0 /\ c[y][z] <= 0 => c[x][z] <= 0

\* A signature by a good key, in an otherwise complete proof, is good exactly if
\* it was made over the canonical form of the records sent (raw: their data as
\* sent, where a record does not determine it).
Canon == LET rr == Range(Case.set) IN
         IF "raw" \in DOMAIN Case THEN SignedOver(Case.g, Case.n, Range(Case.raw)) ELSE SignedData(Case.g, Case.n, rr)
C11 == i > 0 =>
  /\ Out.res = IF Case.msg = Canon THEN "ok" ELSE "invalid"
  /\ Out.res = "ok" /\ Case.g.ct \notin {T_NSEC, T_NSEC3} => Len(Out.set) = Cardinality(Range(Case.set)) /\ Range(Out.set) = Range(Case.set)
\* The known findings: records whose data as sent differs from what the library
\* writes for them (TXT in other strings, NSEC with upper-case letters) are
\* checked over the latter. Anything else is still a violation.
Rewritten == SignedData(Case.g, Case.n, Range(Case.set))
C11Known == i > 0 => C11 \/ (/\ Canon # Rewritten /\ Case.g.ct \in {T_TXT, T_NSEC}
                             /\ Out.res = IF Case.msg = Rewritten THEN "ok" ELSE "invalid")
NoteKnown == i > 0 => PrintT(IF C11 THEN "as specified" ELSE IF Case.g.ct = T_TXT THEN "finding txt-strings" ELSE "finding nsec-case")
NoteSigned == i > 0 => PrintT(IF Case.msg = Canon THEN "canonical" ELSE "other message")

Note == i > 0 => PrintT(Out.res)
NoteParse == i > 0 => LET e == Stream(IF "u" \in DOMAIN Case THEN Case.u \o Case.tail ELSE Case.b) IN PrintT(IF ~e.ok THEN "malformed" ELSE IF e.free THEN "any value" ELSE IF e.lax THEN "may be refused" ELSE "well-formed")
===========================================================================
