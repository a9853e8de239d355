------------------------------ MODULE BufferMC ------------------------------
(* How the crate keeps a buffer: up to Limit bytes in place, more on the     *)
(* heap, moving when it grows across. It refines Buffer.tla for every        *)
(* sequence of operations with sizes around the boundaries.                  *)
EXTENDS Integers, Sequences, TLC, Json
CONSTANTS Limit, Max, Depth, Sizes, Export
Bf == INSTANCE Buffer
VARIABLES spec, impl, hist
vars == <<spec, impl, hist>>
\* stack: Limit bytes; heap; len.
Nil == [stack |-> <<<<Limit, 0>>>>, heap |-> <<>>, len |-> 0]
Read(m) == IF m.len > Limit THEN m.heap ELSE Bf!First(m.stack, m.len)
Min(a, b) == IF a < b THEN a ELSE b
Extend(m, r) ==
  LET n == Min(Max, m.len + Bf!RunsLen(r))
      src == Bf!First(r, n - m.len)
  IN IF n > Limit
     THEN [m EXCEPT !.heap = Bf!Join(IF m.len > Limit THEN m.heap ELSE Bf!First(m.stack, m.len), src), !.len = n]
     ELSE [m EXCEPT !.stack = Bf!Join(Bf!First(m.stack, m.len), Bf!Join(src, Bf!Rest(m.stack, n))), !.len = n]
Do(ms, o) ==
  LET m == ms[o.a]
      set(y) == [ms EXCEPT ![o.a] = y]
  IN CASE o.op = "new" -> set([Nil EXCEPT !.heap = IF o.n > Limit THEN Bf!Runs(o.n, 0) ELSE <<>>, !.len = o.n])
       [] o.op = "ext" -> set(Extend(m, o.r))
       [] o.op = "put" -> IF o.p + o.n > m.len THEN ms
                          ELSE set(IF m.len > Limit THEN [m EXCEPT !.heap = Bf!Overwrite(m.heap, o.p, o.n, o.b)]
                                   ELSE [m EXCEPT !.stack = Bf!Overwrite(m.stack, o.p, o.n, o.b)])
       [] o.op = "copy" -> [ms EXCEPT ![3 - o.a] = m]
Ops == [op : {"new"}, a : {1, 2}, n : Sizes] \cup [op : {"ext"}, a : {1, 2}, r : {Bf!Runs(k, 7) : k \in Sizes}]
       \cup [op : {"put"}, a : {1}, p : {0} \cup {s - 1 : s \in Sizes \ {0}}, n : {1}, b : {9}] \cup [op : {"copy"}, a : {1, 2}]
Init == spec = Bf!Fresh /\ impl = <<Nil, Nil>> /\ hist = <<>>
Next == /\ Len(hist) < Depth
        /\ \E o \in Ops : spec' = Bf!Apply(spec, o) /\ impl' = Do(impl, o) /\ hist' = Append(hist, o)
Spec == Init /\ [][Next]_vars
\* Without the history: all that is reachable with any number of operations up to Depth.
View == <<spec, impl, Len(hist)>>
Refines == \A b \in 1..2 : spec[b].known => Read(impl[b]) = spec[b].r
Lengths == \A b \in 1..2 : impl[b].len <= Max /\ impl[b].len = Bf!RunsLen(Read(impl[b]))
Exported == Export /\ Len(hist) = Depth => PrintT(ToJson(hist))
=============================================================================
