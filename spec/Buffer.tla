------------------------------- MODULE Buffer -------------------------------
(* Query buffers: growable byte strings of at most Max bytes. Contents are   *)
(* runs: sequences of <<count, byte>>, counts positive, neighbours distinct. *)
(* Past Max a buffer's contents are not specified any more (known = FALSE).  *)
EXTENDS Integers, Sequences
CONSTANT Max

RECURSIVE RunsLen(_)
RunsLen(r) == IF r = <<>> THEN 0 ELSE r[1][1] + RunsLen(Tail(r))
Cons(x, r) == IF x[1] = 0 THEN r
              ELSE IF r # <<>> /\ r[1][2] = x[2] THEN <<<<x[1] + r[1][1], x[2]>>>> \o Tail(r)
              ELSE <<x>> \o r
RECURSIVE Join(_, _)
Join(a, b) == IF a = <<>> THEN b ELSE Cons(a[1], Join(Tail(a), b))
RECURSIVE First(_, _)
First(r, k) == IF k = 0 \/ r = <<>> THEN <<>>
               ELSE IF r[1][1] >= k THEN <<<<k, r[1][2]>>>>
               ELSE <<r[1]>> \o First(Tail(r), k - r[1][1])
RECURSIVE Rest(_, _)
Rest(r, k) == IF k = 0 \/ r = <<>> THEN r
              ELSE IF r[1][1] > k THEN <<<<r[1][1] - k, r[1][2]>>>> \o Tail(r)
              ELSE Rest(Tail(r), k - r[1][1])
\* n bytes from offset p become b.
Overwrite(r, p, n, b) == Join(First(r, p), Join(<<<<n, b>>>>, Rest(r, p + n)))
Runs(n, b) == IF n = 0 THEN <<>> ELSE <<<<n, b>>>>

\* Operations: o.a is the buffer (1 or 2) it is applied to.
Apply(bufs, o) ==
  LET x == bufs[o.a]
      set(y) == [bufs EXCEPT ![o.a] = y]
  IN CASE o.op = "new" -> set([known |-> TRUE, r |-> Runs(o.n, 0)])
       [] o.op = "ext" -> IF ~x.known \/ RunsLen(x.r) + RunsLen(o.r) > Max THEN set([known |-> FALSE, r |-> <<>>])
                          ELSE set([x EXCEPT !.r = Join(x.r, o.r)])
       [] o.op = "put" -> IF x.known /\ o.p + o.n <= RunsLen(x.r) THEN set([x EXCEPT !.r = Overwrite(x.r, o.p, o.n, o.b)]) ELSE bufs
       [] o.op = "copy" -> [bufs EXCEPT ![3 - o.a] = x]
Empty == [known |-> TRUE, r |-> <<>>]
Fresh == <<Empty, Empty>>
=============================================================================
