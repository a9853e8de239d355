------------------------------- MODULE Pools -------------------------------
(* The pools of records an attacker can present parts of. A bundle is a set   *)
(* of records presented together. Key tags and NSEC3 hashes, being functions  *)
(* of real keys, come from the harness (vh tables).                           *)
EXTENDS PoolBase

Tables == TLCEval(JsonDeserialize(IOEnv.TABLES))
TagOf(kid, fl, pr, alg) ==
  LET m == {i \in DOMAIN Tables.tags : LET t == Tables.tags[i] IN t[1] = kid /\ t[2] = fl /\ t[3] = pr /\ t[4] = alg}
  IN Tables.tags[CHOOSE i \in m : TRUE][5]

Key(kid, fl, pr, alg) == [k |-> "key", kid |-> kid, fl |-> fl, pr |-> pr, alg |-> alg, tag |-> TagOf(kid, fl, pr, alg)]
Ds(key, okey, on, dt) == [k |-> "ds", tag |-> key.tag, alg |-> key.alg, dt |-> dt, okey |-> okey, on |-> on, cut |-> 0]
Txt(x) == [k |-> "b", ty |-> T_TXT, x |-> x]
Inc == <<25938, 0>>  Exp == <<25941, 0>>  Ottl == <<0, 3600>>
\* A signature by key (a content) in the name of zone kn, on owner on, over set.
Sig(ct, lab, key, kn, on, set) ==
  [k |-> "sig", ct |-> ct, alg |-> key.alg, lab |-> lab, ottl |-> Ottl, exp |-> Exp, inc |-> Inc, tag |-> key.tag,
   kn |-> kn, by |-> key.kid, mh |-> TRUE, on |-> on, set |-> set]
Nsec(next) == [k |-> "nsec", next |-> next, types |-> <<16, 46, 47>>]

L(x) == x  \* readability
la == <<97>>  le == <<101>>  lx == <<120>>  lz == <<122>>  lxe == <<120, 101>>  lw == <<119>>  lm == <<109>>
----------------------------------------------------------------------------
(* chain: root, a., and the attacker's e.a. Names under e.a. are its own;     *)
(* xe.a. only looks that way as a string.                                     *)
Chain ==
  LET names == << <<>>, <<la>>, <<le, la>>, <<lx, la>>, <<lxe, la>>, <<lx, le, la>>, <<le>> >>
      k1 == Key(1, 257, 3, 15)  k2 == Key(2, 256, 3, 15)
      k3 == Key(3, 257, 3, 15)  k4 == Key(4, 256, 3, 15)
      k5 == Key(5, 257, 3, 15)
      rd == <<
        k1, k2,                             \* 1 2 root's keys
        k3, k4,                             \* 3 4 keys of a.
        k5,                                 \* 5 the attacker's key
        Sig(48, 0, k1, 1, 1, <<1, 2>>),     \* 6
        Ds(k3, 3, 2, 2),                    \* 7 DS of a.
        Sig(43, 1, k2, 1, 2, <<7>>),        \* 8
        Sig(48, 1, k3, 2, 2, <<3, 4>>),     \* 9
        Ds(k5, 5, 3, 2),                    \* 10 DS of e.a.
        Sig(43, 2, k4, 2, 3, <<10>>),       \* 11
        Sig(48, 2, k5, 3, 3, <<5>>),        \* 12 attacker's keys
        Txt(<<103>>),                       \* 13 good
        Sig(16, 2, k4, 2, 4, <<13>>),       \* 14 x.a. TXT good
        Txt(<<98>>),                        \* 15 bad
        Sig(16, 3, k5, 3, 6, <<15>>),       \* 16 x.e.a. TXT bad: the attacker's own
        Sig(16, 2, k5, 3, 4, <<15>>),       \* 17 x.a. TXT bad by e.a.
        Sig(16, 2, k5, 3, 5, <<15>>),       \* 18 xe.a. TXT bad by e.a.
        Sig(16, 2, k5, 2, 4, <<15>>),       \* 19 x.a. TXT bad in the name of a., by the attacker's key
        Sig(48, 1, k5, 2, 2, <<3, 4, 5>>),  \* 20 a.'s keys and the attacker's, by the attacker's
        Sig(43, 1, k5, 3, 2, <<10>>),       \* 21 DS for a. by e.a. over the attacker's digest
        Ds(k5, 5, 2, 2),                    \* 22 DS of a. for the attacker's key
        Sig(43, 1, k5, 3, 2, <<22>>),       \* 23 by e.a.
        Sig(43, 1, k5, 1, 2, <<7, 22>>),    \* 24 by the attacker in the root's name
        Sig(43, 2, k5, 3, 3, <<10>>),       \* 25 e.a. delegating to itself
        Sig(16, 2, k5, 1, 4, <<15>>),       \* 26 x.a. TXT bad in the root's name
        Sig(16, 1, k4, 2, 7, <<13>>)        \* 27 e. TXT good by a.: out of its zone
        >>
      b == <<
        <<<<1, 48, 1>>, <<1, 48, 2>>, <<1, 46, 6>>>>,      \* 1 root
        <<<<2, 43, 7>>, <<2, 46, 8>>>>,                     \* 2 DS a.
        <<<<2, 48, 3>>, <<2, 48, 4>>, <<2, 46, 9>>>>,       \* 3 keys of a.
        <<<<3, 43, 10>>, <<3, 46, 11>>>>,                   \* 4 DS e.a.
        <<<<3, 48, 5>>, <<3, 46, 12>>>>,                    \* 5 keys of e.a.
        <<<<4, 16, 13>>, <<4, 46, 14>>>>,                   \* 6 x.a. TXT good
        <<<<6, 16, 15>>, <<6, 46, 16>>>>,                   \* 7 x.e.a. TXT bad
        <<<<4, 16, 15>>>>,                                  \* 8 x.a. TXT bad, bare
        <<<<4, 46, 17>>>>,                                  \* 9
        <<<<5, 16, 15>>, <<5, 46, 18>>>>,                   \* 10
        <<<<4, 46, 19>>>>,                                  \* 11
        <<<<2, 48, 5>>>>,                                   \* 12 attacker's key at a.
        <<<<2, 46, 20>>>>,                                  \* 13
        <<<<2, 43, 22>>>>,                                  \* 14 attacker's DS at a.
        <<<<2, 46, 23>>>>,                                  \* 15
        <<<<2, 46, 24>>>>,                                  \* 16
        <<<<3, 46, 25>>>>,                                  \* 17
        <<<<1, 48, 5>>>>,                                   \* 18 attacker's key at the root
        <<<<4, 46, 26>>>>                                   \* 19
        >>
  IN [names |-> names, rd |-> rd, h |-> <<>>, bundles |-> b, evil |-> <<le, la>>,
      base |-> {1}, honest |-> 2..7, excl |-> {},
      published |-> {<< <<lx, la>>, 13 >>}]

----------------------------------------------------------------------------
(* wild: a. has x.a., e.a. (the attacker's, delegated) and *.a.; the NSEC     *)
(* chain of a. is a., *.a., e.a., z.m.a., x.a. The attacker replays the wildcard for  *)
(* names that exist, for names of which only the end does not exist, and      *)
(* brings NSEC records of its own.                                            *)
WildPool ==
  LET names == << <<>>, <<la>>, <<le, la>>, <<lx, la>>, <<Star, la>>, <<lw, la>>, <<lz, la>>, <<lw, lx, la>>, <<lz, le, la>>, <<lw, le, la>>, <<lz, lw, la>>, <<lm, la>>, <<lz, lm, la>> >>
      k1 == Key(1, 257, 3, 15)  k3 == Key(3, 257, 3, 15)  k5 == Key(5, 257, 3, 15)
      rd == <<
        k1, k3, k5,                          \* 1 2 3
        Sig(48, 0, k1, 1, 1, <<1>>),         \* 4
        Ds(k3, 2, 2, 2),                     \* 5
        Sig(43, 1, k1, 1, 2, <<5>>),         \* 6
        Sig(48, 1, k3, 2, 2, <<2>>),         \* 7
        Ds(k5, 3, 3, 2),                     \* 8
        Sig(43, 2, k3, 2, 3, <<8>>),         \* 9
        Sig(48, 2, k5, 3, 3, <<3>>),         \* 10
        Txt(<<103>>),                        \* 11 the wildcard's data
        Sig(16, 1, k3, 2, 5, <<11>>),        \* 12 its signature
        Txt(<<104>>),                        \* 13 x.a.'s own data
        Sig(16, 2, k3, 2, 4, <<13>>),        \* 14
        Nsec(5), Sig(47, 1, k3, 2, 2, <<15>>),  \* 15 16 a. -> *.a.
        Nsec(3), Sig(47, 1, k3, 2, 5, <<17>>),  \* 17 18 *.a. -> e.a.
        Nsec(13), Sig(47, 2, k3, 2, 3, <<19>>), \* 19 20 e.a. -> z.m.a.
        Nsec(2), Sig(47, 2, k3, 2, 4, <<21>>),  \* 21 22 x.a. -> a.
        Nsec(7), Sig(47, 2, k5, 3, 3, <<23>>),  \* 23 24 e.a. -> z.a., by e.a.
        Sig(47, 2, k5, 2, 3, <<23>>),           \* 25 the same in the name of a.
        Nsec(9), Sig(47, 2, k5, 3, 3, <<26>>),  \* 26 27 e.a. -> z.e.a., by e.a.
        Sig(16, 2, k5, 3, 5, <<11>>),           \* 28 the attacker's wildcard claim for *.a.
        Nsec(4), Sig(47, 3, k3, 2, 13, <<29>>)  \* 29 30 z.m.a. -> x.a.
        >>
      b == <<
        <<<<1, 48, 1>>, <<1, 46, 4>>, <<2, 43, 5>>, <<2, 46, 6>>, <<2, 48, 2>>, <<2, 46, 7>>>>,  \* 1 root and a.
        <<<<3, 43, 8>>, <<3, 46, 9>>, <<3, 48, 3>>, <<3, 46, 10>>>>,   \* 2 e.a.
        <<<<4, 16, 13>>, <<4, 46, 14>>>>,                               \* 3 x.a.
        <<<<6, 16, 11>>, <<6, 46, 12>>>>,                               \* 4 w.a. from the wildcard: true
        <<<<7, 16, 11>>, <<7, 46, 12>>>>,                               \* 5 z.a. from the wildcard: true
        <<<<4, 16, 11>>, <<4, 46, 12>>>>,                               \* 6 x.a. from the wildcard: false
        <<<<8, 16, 11>>, <<8, 46, 12>>>>,                               \* 7 w.x.a. from the wildcard: false, x.a. exists
        <<<<11, 16, 11>>, <<11, 46, 12>>>>,                             \* 8 z.w.a. from the wildcard: true
        <<<<5, 16, 11>>, <<5, 46, 12>>>>,                               \* 9 *.a. itself: published
        <<<<2, 47, 15>>, <<2, 46, 16>>>>,                               \* 10 NSEC a.
        <<<<3, 47, 19>>, <<3, 46, 20>>>>,                               \* 11 NSEC e.a. (of a.)
        <<<<4, 47, 21>>, <<4, 46, 22>>>>,                               \* 12 NSEC x.a.
        <<<<3, 47, 23>>, <<3, 46, 24>>>>,                               \* 13 NSEC e.a. -> z.a. by e.a.
        <<<<3, 47, 23>>, <<3, 46, 25>>>>,                               \* 14 in the name of a.
        <<<<3, 47, 26>>, <<3, 46, 27>>>>,                               \* 15 NSEC e.a. -> z.e.a. by e.a.
        <<<<5, 47, 17>>, <<5, 46, 18>>>>,                               \* 16 NSEC *.a.
        <<<<13, 47, 29>>, <<13, 46, 30>>>>,                             \* 17 NSEC z.m.a.
        <<<<12, 16, 11>>, <<12, 46, 12>>>>                              \* 18 m.a. from the wildcard: false, z.m.a. exists
        >>
  IN [names |-> names, rd |-> rd, h |-> <<>>, bundles |-> b, evil |-> <<le, la>>,
      base |-> {1}, honest |-> {2, 3, 4, 5, 8, 9, 10, 11, 12, 16, 17}, excl |-> {},
      published |-> {<< <<lx, la>>, 13 >>, << <<lw, la>>, 11 >>, << <<lz, la>>, 11 >>, << <<lz, lw, la>>, 11 >>, << <<Star, la>>, 11 >>}]

----------------------------------------------------------------------------
(* alg: a. has keys in a supported and an unknown algorithm and DS records   *)
(* with each digest; the attacker knows the key of the unknown algorithm and *)
(* a SHA-1 collision for its own key.                                        *)
AlgPool ==
  LET names == << <<>>, <<la>>, <<lx, la>> >>
      k1 == Key(1, 257, 3, 15)  k3 == Key(3, 257, 3, 15)  u == Key(61, 257, 3, 5)  k5 == Key(5, 257, 3, 15)
      nz == Key(6, 1, 3, 15)  p4 == Key(7, 257, 4, 15)
      rd == <<
        k1, k3, u, k5, nz, p4,               \* 1..6
        Sig(48, 0, k1, 1, 1, <<1>>),         \* 7
        Ds(k3, 2, 2, 2), Ds(k3, 2, 2, 4), Ds(k3, 2, 2, 1),    \* 8 9 10
        Ds(u, 3, 2, 2), Ds(k5, 4, 2, 1),     \* 11 12 (12: the SHA-1 collision)
        Sig(43, 1, k1, 1, 2, <<8, 11>>),     \* 13
        Sig(43, 1, k1, 1, 2, <<8, 10>>),     \* 14
        Sig(43, 1, k1, 1, 2, <<9, 10>>),     \* 15
        Sig(43, 1, k1, 1, 2, <<9>>),         \* 16
        Sig(43, 1, k1, 1, 2, <<10>>),        \* 17
        Sig(43, 1, k1, 1, 2, <<8, 12>>),     \* 18 SHA-1 for the attacker's key beside SHA-256
        Sig(43, 1, k1, 1, 2, <<11>>),        \* 19
        Sig(48, 1, k3, 2, 2, <<2, 3>>),      \* 20
        Sig(48, 1, u, 2, 2, <<2, 3>>),       \* 21
        Sig(48, 1, k5, 2, 2, <<2, 4>>),      \* 22
        Sig(48, 1, k3, 2, 2, <<2, 5, 6>>),   \* 23
        Txt(<<103>>),                        \* 24
        Sig(16, 2, k3, 2, 3, <<24>>),        \* 25
        Sig(16, 2, u, 2, 3, <<24>>),         \* 26
        Sig(16, 2, nz, 2, 3, <<29>>),        \* 27 by a key without the ZONE flag
        Sig(16, 2, p4, 2, 3, <<29>>),        \* 28 by a key of protocol 4
        Txt(<<98>>),                         \* 29
        Sig(16, 2, k5, 2, 3, <<29>>),        \* 30
        Sig(48, 1, k3, 2, 2, <<2>>)          \* 31
        >>
      b == <<
        <<<<1, 48, 1>>, <<1, 46, 7>>>>,      \* 1
        <<<<2, 43, 8>>, <<2, 43, 11>>, <<2, 46, 13>>>>,   \* 2 SHA-256 for both keys
        <<<<2, 43, 8>>, <<2, 43, 10>>, <<2, 46, 14>>>>,   \* 3 SHA-256 and SHA-1
        <<<<2, 43, 9>>, <<2, 43, 10>>, <<2, 46, 15>>>>,   \* 4 SHA-384 and SHA-1
        <<<<2, 43, 9>>, <<2, 46, 16>>>>,                  \* 5 SHA-384
        <<<<2, 43, 10>>, <<2, 46, 17>>>>,                 \* 6 SHA-1
        <<<<2, 43, 8>>, <<2, 43, 12>>, <<2, 46, 18>>>>,   \* 7 SHA-256, and SHA-1 for the attacker's
        <<<<2, 43, 11>>, <<2, 46, 19>>>>,                 \* 8 only the unknown algorithm
        <<<<2, 48, 2>>, <<2, 46, 31>>>>,     \* 9
        <<<<2, 48, 3>>, <<2, 46, 20>>, <<2, 46, 21>>>>,   \* 10
        <<<<2, 48, 2>>, <<2, 48, 4>>, <<2, 46, 22>>>>,     \* 11
        <<<<2, 48, 2>>, <<2, 48, 5>>, <<2, 48, 6>>, <<2, 46, 23>>>>,    \* 12
        <<<<3, 16, 24>>>>,                   \* 13
        <<<<3, 46, 25>>>>, <<<<3, 46, 26>>>>, <<<<3, 46, 27>>>>, <<<<3, 46, 28>>>>,   \* 14..17
        <<<<3, 16, 29>>>>, <<<<3, 46, 30>>>>     \* 18 19
        >>
  IN [names |-> names, rd |-> rd, h |-> <<>>, bundles |-> b, evil |-> <<lx, lx, lx>>,
      base |-> {1}, honest |-> {9, 13, 14}, excl |-> 2..8,
      published |-> {<< <<lx, la>>, 24 >>}]

(* nsec3: the same zone denied by NSEC3; it has x.a., z.m.a. and *.a. The     *)
(* attacker's e.a. has an NSEC3 record from all zeros to all ones, signs one  *)
(* in the name of a., and replays an opt-out record.                          *)
H3(n) == CHOOSE x \in Range(Tables.hashes) : x.n = n
Hashed == {H3(n) : n \in {<<la>>, <<Star, la>>, <<lx, la>>, <<lm, la>>, <<lz, lm, la>>}}
After(x) ==
  LET g == {y \in Hashed : BytesLt(x.h, y.h)}
      least(S) == CHOOSE y \in S : \A z \in S : ~BytesLt(z.h, y.h)
  IN IF g = {} THEN least(Hashed) ELSE least(g)
Owners3 == SetToSortSeq(Hashed, LAMBDA x, y : BytesLt(x.h, y.h))
Nsec3(fl, nh) == [k |-> "nsec3", ha |-> 1, fl |-> fl, it |-> 1, salt |-> <<171>>, nh |-> nh, types |-> <<16, 46>>]
Zeros == [i \in 1..32 |-> 48]
Ones == [i \in 1..20 |-> 255]
Nsec3Pool ==
  LET names == << <<>>, <<la>>, <<le, la>>, <<lx, la>>, <<Star, la>>, <<lw, la>>, <<lz, la>>, <<lw, lx, la>>, <<lm, la>>,
                  <<Zeros, le, la>>, <<Zeros, la>> >> \o [q \in 1..5 |-> <<Owners3[q].l, la>>]
      k1 == Key(1, 257, 3, 15)  k3 == Key(3, 257, 3, 15)  k5 == Key(5, 257, 3, 15)
      rd == <<
        k1, k3, k5,                          \* 1 2 3
        Sig(48, 0, k1, 1, 1, <<1>>),         \* 4
        Ds(k3, 2, 2, 2),                     \* 5
        Sig(43, 1, k1, 1, 2, <<5>>),         \* 6
        Sig(48, 1, k3, 2, 2, <<2>>),         \* 7
        Ds(k5, 3, 3, 2),                     \* 8
        Sig(43, 2, k3, 2, 3, <<8>>),         \* 9
        Sig(48, 2, k5, 3, 3, <<3>>),         \* 10
        Txt(<<103>>),                        \* 11
        Sig(16, 1, k3, 2, 5, <<11>>),        \* 12 the wildcard's signature
        Nsec3(0, Ones),                      \* 13 everything
        Sig(50, 3, k5, 3, 10, <<13>>),       \* 14 by e.a.
        Sig(50, 2, k5, 2, 11, <<13>>),       \* 15 by the attacker in the name of a.
        Nsec3(1, Ones),                      \* 16 everything, opt-out
        Sig(50, 2, k3, 2, 11, <<16>>)        \* 17 by a.
        >> \o FlattenSeq([q \in 1..5 |-> << Nsec3(0, After(Owners3[q]).h), Sig(50, 2, k3, 2, 11 + q, <<16 + 2 * q>>) >>])
      b == <<
        <<<<1, 48, 1>>, <<1, 46, 4>>, <<2, 43, 5>>, <<2, 46, 6>>, <<2, 48, 2>>, <<2, 46, 7>>>>,  \* 1
        <<<<3, 43, 8>>, <<3, 46, 9>>, <<3, 48, 3>>, <<3, 46, 10>>>>,   \* 2
        <<<<6, 16, 11>>, <<6, 46, 12>>>>,    \* 3 w.a.: true
        <<<<7, 16, 11>>, <<7, 46, 12>>>>,    \* 4 z.a.: true
        <<<<4, 16, 11>>, <<4, 46, 12>>>>,    \* 5 x.a.: false
        <<<<8, 16, 11>>, <<8, 46, 12>>>>,    \* 6 w.x.a.: false
        <<<<9, 16, 11>>, <<9, 46, 12>>>>,    \* 7 m.a.: false
        <<<<10, 50, 13>>, <<10, 46, 14>>>>,  \* 8
        <<<<11, 50, 13>>, <<11, 46, 15>>>>,  \* 9
        <<<<11, 50, 16>>, <<11, 46, 17>>>>   \* 10
        >> \o [q \in 1..5 |-> <<<<11 + q, 50, 15 + 2 * q + 1>>, <<11 + q, 46, 17 + 2 * q>>>>]  \* 11..15
      h == SetToSeq({[n |-> i, it |-> 1, salt |-> <<171>>, h |-> H3(names[i]).h] : i \in {4, 6, 7, 9}})
  IN [names |-> names, rd |-> rd, h |-> h, bundles |-> b, evil |-> <<le, la>>,
      base |-> {1}, honest |-> {2, 3, 4} \cup 11..15, excl |-> {},
      published |-> {<< <<lw, la>>, 11 >>, << <<lz, la>>, 11 >>}]

----------------------------------------------------------------------------
(* loop: zones that delegate to themselves, to each other and to the root.    *)
LoopPool ==
  LET names == << <<>>, <<la>>, <<lx, la>> >>
      k1 == Key(1, 257, 3, 15)  k3 == Key(3, 257, 3, 15)  k5 == Key(5, 257, 3, 15)
      rd == <<
        k1, k3, k5,                          \* 1 2 3
        Sig(48, 0, k1, 1, 1, <<1>>),         \* 4
        Ds(k3, 2, 2, 2), Ds(k5, 3, 3, 2), Ds(k1, 1, 1, 2),   \* 5 6 7
        Sig(43, 1, k1, 1, 2, <<5>>),         \* 8 root: a.
        Sig(43, 2, k3, 2, 3, <<6>>),         \* 9 a.: x.a.
        Sig(48, 1, k3, 2, 2, <<2>>),         \* 10
        Sig(48, 2, k5, 3, 3, <<3>>),         \* 11
        Sig(43, 1, k3, 2, 2, <<5>>),         \* 12 a.: a.
        Sig(43, 2, k5, 3, 3, <<6>>),         \* 13 x.a.: x.a.
        Sig(43, 2, k1, 1, 3, <<6>>),         \* 14 root: x.a.
        Sig(43, 0, k1, 1, 1, <<7>>),         \* 15 root: root
        Sig(43, 1, k5, 3, 2, <<5>>),         \* 16 x.a.: a. (out of zone)
        Txt(<<103>>), Sig(16, 2, k3, 2, 3, <<17>>), Sig(16, 2, k5, 3, 3, <<17>>), Sig(16, 2, k1, 1, 3, <<17>>)  \* 17..20
        >>
      b == <<
        <<<<1, 48, 1>>, <<1, 46, 4>>>>, <<<<2, 48, 2>>, <<2, 46, 10>>>>, <<<<3, 48, 3>>, <<3, 46, 11>>>>,   \* 1..3
        <<<<2, 43, 5>>>>, <<<<3, 43, 6>>>>, <<<<1, 43, 7>>>>,          \* 4..6
        <<<<2, 46, 8>>>>, <<<<3, 46, 9>>>>, <<<<2, 46, 12>>>>, <<<<3, 46, 13>>>>, <<<<3, 46, 14>>>>, <<<<1, 46, 15>>>>, <<<<2, 46, 16>>>>,  \* 7..13
        <<<<3, 16, 17>>>>, <<<<3, 46, 18>>>>, <<<<3, 46, 19>>>>, <<<<3, 46, 20>>>>  \* 14..17
        >>
  IN [names |-> names, rd |-> rd, h |-> <<>>, bundles |-> b, evil |-> <<lx, lx, lx>>,
      base |-> {1}, honest |-> {2, 3, 4, 5, 7, 8, 14}, excl |-> {},
      published |-> {<< <<lx, la>>, 17 >>}]

(* window: a. and two records, each signature with several validity windows   *)
(* and original TTLs, among them times before 1997 (that is, after 2106) and  *)
(* windows that do not meet.                                                  *)
SigW(ct, lab, key, kn, on, set, inc, exp, ottl) == [Sig(ct, lab, key, kn, on, set) EXCEPT !.inc = inc, !.exp = exp, !.ottl = ottl]
WindowPool ==
  LET names == << <<>>, <<la>>, <<lx, la>>, <<lz, la>> >>
      k1 == Key(1, 257, 3, 15)  k3 == Key(3, 257, 3, 15)
      rd == <<
        k1, k3, Ds(k3, 2, 2, 2), Txt(<<103>>),      \* 1..4
        Sig(48, 0, k1, 1, 1, <<1>>),                \* 5
        SigW(48, 0, k1, 1, 1, <<1>>, <<25937, 5>>, <<25942, 5>>, <<0, 60>>),       \* 6 wider, low TTL
        Sig(43, 1, k1, 1, 2, <<3>>),                \* 7
        SigW(43, 1, k1, 1, 2, <<3>>, <<25938, 7>>, <<25940, 7>>, <<1, 0>>),        \* 8 narrower
        Sig(48, 1, k3, 2, 2, <<2>>),                \* 9
        SigW(48, 1, k3, 2, 2, <<2>>, <<25940, 7>>, <<25943, 7>>, <<0, 3599>>),     \* 10 starts when 8 ends
        SigW(48, 1, k3, 2, 2, <<2>>, <<25938, 0>>, <<12, 0>>, <<0, 3600>>),        \* 11 ends after 2106
        Sig(16, 2, k3, 2, 3, <<4>>),                \* 12
        SigW(16, 2, k3, 2, 3, <<4>>, <<25939, 0>>, <<25940, 65535>>, <<0, 0>>),    \* 13
        SigW(16, 2, k3, 2, 4, <<4>>, <<12992, 49664>>, <<25940, 0>>, <<65535, 65535>>),  \* 14 from the cutoff itself
        SigW(16, 2, k3, 2, 4, <<4>>, <<12992, 49663>>, <<13, 0>>, <<0, 3601>>),    \* 15 from one second before it
        SigW(16, 2, k3, 2, 4, <<4>>, <<25940, 0>>, <<25939, 65535>>, <<0, 3600>>)  \* 16 empty
        >>
      b == <<
        <<<<1, 48, 1>>, <<2, 48, 2>>, <<2, 43, 3>>, <<3, 16, 4>>>>,   \* 1
        <<<<1, 46, 5>>>>, <<<<1, 46, 6>>>>, <<<<2, 46, 7>>>>, <<<<2, 46, 8>>>>, <<<<2, 46, 9>>>>, <<<<2, 46, 10>>>>, <<<<2, 46, 11>>>>,  \* 2..8
        <<<<3, 46, 12>>>>, <<<<3, 46, 13>>>>, <<<<4, 16, 4>>, <<4, 46, 14>>>>, <<<<4, 16, 4>>, <<4, 46, 15>>>>, <<<<4, 16, 4>>, <<4, 46, 16>>>>  \* 9..13
        >>
  IN [names |-> names, rd |-> rd, h |-> <<>>, bundles |-> b, evil |-> <<lx, lx, lx>>,
      base |-> {1}, honest |-> {2, 4, 6, 9}, excl |-> {}, published |-> {<< <<lx, la>>, 4 >>, << <<lz, la>>, 4 >>}]

PoolOf(p) == CASE p = "chain" -> Chain [] p = "wild" -> WildPool [] p = "alg" -> AlgPool [] p = "nsec3" -> Nsec3Pool [] p = "loop" -> LoopPool [] p = "window" -> WindowPool
\* Printing them is all that is done with this module; Verifier.tla reads them.
VARIABLE done
ToSeq(S) == SetToSeq(S)
Pool == PoolOf(IOEnv.POOLNAME)
Init == done = FALSE
Next == ~done /\ done' = TRUE /\ PrintT(ToJson([Pool EXCEPT !.base = ToSeq(@), !.honest = ToSeq(@), !.excl = ToSeq(@), !.published = ToSeq(@)]))
Spec == Init /\ [][Next]_done
=============================================================================
