----------------------------- MODULE DnsNames -----------------------------
(* Domain names as the DNS sees them: a sequence of labels, leftmost first, *)
(* each a sequence of octets. The root is the empty sequence.               *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt

Lc(b) == IF b >= 65 /\ b <= 90 THEN b + 32 ELSE b
LowerLabel(l) == [i \in DOMAIN l |-> Lc(l[i])]
Lower(n) == [i \in DOMAIN n |-> LowerLabel(n[i])]

\* The last k labels (k <= Len(n)).
Trail(n, k) == SubSeq(n, Len(n) - k + 1, Len(n))
\* n is z or (label-wise) below it.
Under(n, z) == Len(n) >= Len(z) /\ Trail(n, Len(z)) = z
StrictlyUnder(n, z) == Len(n) > Len(z) /\ Under(n, z)

Star == <<42>>
Wild(z) == <<Star>> \o z

Min2(a, b) == IF a < b THEN a ELSE b
Max2(a, b) == IF a > b THEN a ELSE b
\* Strict order of octet strings, a proper prefix first.
RECURSIVE BytesLtFrom(_, _, _)
BytesLtFrom(a, b, i) ==
  IF i > Len(b) THEN FALSE
  ELSE IF i > Len(a) THEN TRUE
  ELSE IF a[i] # b[i] THEN a[i] < b[i]
  ELSE BytesLtFrom(a, b, i + 1)
\* (Long common prefixes in strides, to keep the recursion shallow.)
RECURSIVE BytesLtBlocks(_, _, _)
BytesLtBlocks(a, b, i) ==
  IF i + 127 <= Len(a) /\ i + 127 <= Len(b) /\ SubSeq(a, i, i + 127) = SubSeq(b, i, i + 127)
  THEN BytesLtBlocks(a, b, i + 128) ELSE BytesLtFrom(a, b, i)
BytesLt(a, b) == IF Len(a) < 128 THEN BytesLtFrom(a, b, 1) ELSE BytesLtBlocks(a, b, 1)
LabelLt(a, b) == BytesLt(LowerLabel(a), LowerLabel(b))
\* RFC 4034 section 6.1: strict canonical order, comparing from the rightmost label.
RECURSIVE NameLtFrom(_, _, _)
NameLtFrom(a, b, k) ==
  IF k > Len(b) THEN FALSE
  ELSE IF k > Len(a) THEN TRUE
  ELSE LET la == LowerLabel(a[Len(a) - k + 1])
           lb == LowerLabel(b[Len(b) - k + 1]) IN
       IF la # lb THEN BytesLt(la, lb) ELSE NameLtFrom(a, b, k + 1)
NameLt(a, b) == NameLtFrom(a, b, 1)

\* Wire form: length-prefixed labels and the root's empty label.
RECURSIVE WireName(_)
WireName(n) == IF n = <<>> THEN <<0>> ELSE <<Len(n[1])>> \o n[1] \o WireName(Tail(n))
\* Text form: every label followed by a dot; the root is one dot.
RECURSIVE TextLabels(_)
TextLabels(n) == IF n = <<>> THEN <<>> ELSE n[1] \o <<46>> \o TextLabels(Tail(n))
Text(n) == IF n = <<>> THEN <<46>> ELSE TextLabels(n)
TextLen(n) == IF n = <<>> THEN 1 ELSE FoldLeft(LAMBDA a, l : a + Len(l) + 1, 0, n)

\* What the library's Name can hold: printable ASCII without a double quote
\* and, in a label, without a dot; labels of 1..63; text of at most 255.
GraphicOk(b) == b >= 33 /\ b <= 126 /\ b # 34
LabelOk(l) == Len(l) \in 1..63 /\ \A i \in DOMAIN l : GraphicOk(l[i]) /\ l[i] # 46
NameOk(n) == (\A i \in DOMAIN n : LabelOk(n[i])) /\ TextLen(n) <= 255

\* Unsigned integers wider than TLC's are pairs <<high, low 16 bits>>.
PairLt(a, b) == a[1] < b[1] \/ (a[1] = b[1] /\ a[2] < b[2])
PairLeq(a, b) == ~PairLt(b, a)
PairMax(S) == CHOOSE x \in S : \A y \in S : PairLeq(y, x)
PairMin(S) == CHOOSE x \in S : \A y \in S : PairLeq(x, y)

\* Names from text.
RECURSIVE SplitAt(_, _, _, _)
SplitAt(c, p, cur, acc) ==   \* labels of a dot-terminated text
  IF p > Len(c) THEN acc
  ELSE IF c[p] = 46 THEN SplitAt(c, p + 1, <<>>, Append(acc, cur))
  ELSE SplitAt(c, p + 1, Append(cur, c[p]), acc)
TextOk(c) == \/ c = <<46>>
             \/ /\ Len(c) \in 1..255 /\ c[Len(c)] = 46
                /\ LET n == SplitAt(c, 1, <<>>, <<>>) IN \A j \in DOMAIN n : LabelOk(n[j])
TextName(c) == IF c = <<46>> THEN <<>> ELSE Lower(SplitAt(c, 1, <<>>, <<>>))
===========================================================================
