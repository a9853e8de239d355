----------------------------- MODULE BuilderMsg -----------------------------
(* Messages as Builder.tla sees them, by what Wire.tla makes of the bytes;   *)
(* and the bytes of queries.                                                 *)
EXTENDS Wire
MaxTtl == <<65535, 65535>>
B == INSTANCE Builder WITH Cap <- 10, Root <- <<>>, TtlLt <- PairLt, NoTtl <- MaxTtl

\* The sections of a message: n records at p.
RECURSIVE Records(_, _, _, _)
Records(b, p, n, acc) ==
  IF n = 0 THEN [ok |-> TRUE, rs |-> acc, p |-> p]
  ELSE LET r == Record(b, p, Len(b) + 1, TRUE) IN IF ~r.ok THEN Fail ELSE Records(b, r.p, n - 1, Append(acc, r))
\* Parsing is of no interest where the counts cannot be met.
Section(b, p, n) == IF n * 11 > Len(b) - p + 1 THEN Fail ELSE Records(b, p, n, <<>>)
Refused == [ok |-> FALSE, lax |-> FALSE, free |-> FALSE]
Wanted(r) == r.rr.t \in {T_NSEC, T_NSEC3} \/ (r.rr.t = T_RRSIG /\ r.rr.ct \in {T_NSEC, T_NSEC3})
Flag(b, bit) == (U16(b, 3) \div bit) % 2 = 1
HeaderOk(b) == Len(b) >= 12 /\ U16(b, 1) = 0 /\ Flag(b, 32768) /\ (U16(b, 3) \div 2048) % 16 = 0 /\ ~Flag(b, 512) /\ Flag(b, 32)
               /\ U16(b, 3) % 16 = 0 /\ U16(b, 5) = 1 /\ U16(b, 7) > 0
Message(b) ==
  IF ~HeaderOk(b) THEN Refused
  ELSE LET q == ReadName(b, 13, Len(b) + 1, TRUE) IN
  IF ~q.ok \/ q.p + 4 > Len(b) + 1 THEN Refused
  ELSE LET a == Section(b, q.p + 4, U16(b, 7)) IN
  IF ~a.ok THEN Refused
  ELSE LET u == Section(b, a.p, U16(b, 9)) IN
  IF ~u.ok THEN Refused
  ELSE LET rs == a.rs \o SelectSeq(u.rs, Wanted)
           all == a.rs \o u.rs
       IN [ok |-> TRUE, recs |-> [j \in DOMAIN rs |-> <<rs[j].rr, rs[j].ttl>>],
           signers |-> {rs[j].rr.kn : j \in {x \in DOMAIN rs : rs[x].rr.t = T_RRSIG}},
           ttl |-> PairMin({rs[j].ttl : j \in DOMAIN rs}),
           lax |-> q.lax \/ \E j \in DOMAIN all : all[j].lax, free |-> \E j \in DOMAIN rs : rs[j].free]

\* What a query asks: the question of its bytes.
Question(b) == LET q == ReadName(b, 13, Len(b) + 1, FALSE) IN IF Len(b) >= 12 /\ q.ok /\ q.p + 4 <= Len(b) + 1 THEN <<q.n, U16(b, q.p)>> ELSE <<>>

\* C23: the bytes of queries.
QueryOk(b, nme, ty) ==
  LET w == EncName(nme) IN
  /\ Len(b) = 12 + Len(w) + 4 + 11
  /\ SubSeq(b, 1, 12) = <<0, 0, 1, 32, 0, 1, 0, 0, 0, 0, 0, 1>>
  /\ SubSeq(b, 13, 16 + Len(w)) = w \o B16(ty) \o <<0, 1>>
  /\ LET o == SubSeq(b, 17 + Len(w), Len(b)) IN
     SubSeq(o, 1, 3) = <<0, 0, 41>> /\ SubSeq(o, 6, 11) = <<0, 0, 128, 0, 0, 0>>

\* The frame at p of a stream: its content and what follows, if it is all there.
Frame(b, at) == IF at + 1 > Len(b) THEN Fail
                ELSE LET l == U16(b, at) IN IF at + 1 + l > Len(b) THEN Fail ELSE [ok |-> TRUE, b |-> SubSeq(b, at + 2, at + 1 + l), p |-> at + 2 + l]
\* What the builder makes of a stream of framed responses: its last state and how it ended.
RECURSIVE FoldFrom(_, _, _, _)
FoldFrom(b, p, st, odd) ==
  IF ~B!Awaiting(st) THEN [res |-> IF B!MayFinish(st) THEN "ok" ELSE "err", st |-> st, odd |-> odd]
  ELSE LET f == Frame(b, p) IN
       IF ~f.ok THEN [res |-> "err", st |-> st, odd |-> odd]
       ELSE LET m == Message(f.b) r == B!Step(st, m) o == odd \/ m.lax \/ m.free IN
            IF ~r.ok THEN [res |-> "err", st |-> r.st, odd |-> o] ELSE FoldFrom(b, f.p, r.st, o)
Fold(b) == FoldFrom(b, 1, B!New, FALSE)
ProofOf(st) == FlattenSeq([j \in DOMAIN st.recs |-> Enc(st.recs[j][1], st.recs[j][2])])
============================================================================
