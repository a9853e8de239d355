------------------------------ MODULE Verifier ------------------------------
(* The walk over a proof as a state machine, one signature check per step, in *)
(* any order the implementation might take, and what an attacker can make of  *)
(* it: the attacker holds a pool of records (everything published, plus what  *)
(* the key of one zone lets it sign) and presents any part of it.             *)
(* Checked here: the walk ends, with bounded work, in an outcome that         *)
(* Validation.tla allows, and whatever the attacker presents, nothing is      *)
(* accepted for names outside its own zone but what was published.            *)
EXTENDS PoolBase

CONSTANTS Miss, Bad, \* which parts of it (see Within)
          AnyOrder   \* whether signatures are tried in every order

VARIABLES s,       \* the chosen bundles of the pool
          ph,      \* pick, zones, keys, data, denial, done
          todo, seen, cur,   \* zones to walk, walked, being walked
          left,    \* signatures of the zone still to be tried
          relied,  \* signatures relied on (keys included)
          okd,     \* data signatures that verified
          uns,     \* an unsupported signature was among those over the keys
          chk,     \* signature checks made so far, per signature
          res      \* outcome
vars == <<s, ph, todo, seen, cur, left, relied, okd, uns, chk, res>>

P == ReadPool
C == CaseOf(P, s)

Init ==
  /\ s = {} /\ ph = "pick" /\ todo = {} /\ seen = {} /\ cur = 0 /\ left = {}
  /\ relied = {} /\ okd = {} /\ uns = FALSE /\ chk = <<>> /\ res = "none"

Pick == \* in order of bundles, so that each subset is reached once
  /\ ph = "pick"
  /\ \E b \in DOMAIN P.bundles :
       /\ (\A x \in s : x < b)
       /\ Cardinality((s \cup {b}) \ (P.honest \cup P.base \cup P.excl)) <= Bad
       /\ Cardinality((s \cup {b}) \cap P.excl) <= 1
       /\ Cardinality({x \in P.honest \ s : x < b}) <= Miss
       /\ s' = s \cup {b}
  /\ UNCHANGED <<ph, todo, seen, cur, left, relied, okd, uns, chk, res>>
Present ==
  /\ ph = "pick" /\ Within(P, s, Miss, Bad) /\ ph' = "zones"
  /\ todo' = RootIdx(C)
  /\ chk' = [i \in SigIdx(C) |-> 0]
  /\ UNCHANGED <<s, seen, cur, left, relied, okd, uns, res>>

\* What may come next of a set of indices.
Some(S) == IF AnyOrder THEN S ELSE {CHOOSE x \in S : \A y \in S : x <= y}
End(r) == ph' = "done" /\ res' = r
StartZone ==
  /\ ph = "zones" /\ todo # {}
  /\ \E z \in Some(todo) :
       /\ cur' = z /\ todo' = todo \ {z} /\ seen' = seen \cup {z}
       /\ uns' = FALSE
       /\ IF ~IsRoot(C, z) /\ KnownDigests(C, z) \cap {1, 2} = {}
          THEN End("unsupported") /\ left' = {}
          ELSE ph' = "keys" /\ left' = Eligible(C, z) /\ UNCHANGED res
  /\ UNCHANGED <<s, relied, okd, chk>>

Counted(i, st) == IF st = "skip" THEN chk ELSE [chk EXCEPT ![i] = @ + 1]
TryKeySig ==
  /\ ph = "keys"
  /\ IF left = {} THEN
       /\ IF uns THEN End("unsupported")
          ELSE IF ~IsRoot(C, cur) /\ KnownDigests(C, cur) \cap {1, 2, 4} = {1, 4} THEN End("unsupported")
          ELSE End("invalid")
       /\ UNCHANGED <<left, relied, uns, chk>>
     ELSE \E i \in Some(left) : \E st \in SigStatus(C, i, Contents(C, Vouched(C, cur))) :
       /\ chk' = Counted(i, st)
       /\ CASE st = "ok" -> /\ ph' = "data" /\ relied' = relied \cup {i}
                            /\ left' = ZoneSigs(C, cur) /\ UNCHANGED <<uns, res>>
            [] st = "skip" -> left' = left \ {i} /\ uns' = TRUE /\ UNCHANGED <<ph, relied, res>>
            [] OTHER -> End("invalid") /\ UNCHANGED <<left, uns, relied>>
  /\ UNCHANGED <<s, todo, seen, cur, okd>>

TryDataSig ==
  /\ ph = "data"
  /\ IF left = {} THEN ph' = "zones" /\ UNCHANGED <<left, relied, okd, todo, chk, res>>
     ELSE \E i \in Some(left) : \E st \in DataStatus(C, cur, i) :
       /\ chk' = Counted(i, st)
       /\ left' = left \ {i}
       /\ CASE st = "ok" -> /\ relied' = relied \cup {i} /\ okd' = okd \cup {i}
                            /\ todo' = IF G(C, i).ct = T_DS /\ SOwner(C, i) \notin seen THEN todo \cup {SOwner(C, i)} ELSE todo
                            /\ UNCHANGED <<ph, res>>
            [] st = "skip" -> UNCHANGED <<ph, relied, okd, todo, res>>
            [] OTHER -> End("invalid") /\ UNCHANGED <<relied, okd, todo>>
  /\ UNCHANGED <<s, seen, cur, uns>>

\* The two choices NSEC3 and wrapping NSEC leave open are both possible.
Denials == {Denial(C, x[1], x[2], okd) : x \in {<<G(C, i).kn, Trail(N(C, SOwner(C, i)), G(C, i).lab + 1)>> : i \in {j \in okd : NeedsDenial(C, j)}}}
Window == [vf |-> PairMax({Resolve32(G(C, i).inc) : i \in relied}),
           ex |-> PairMin({Resolve32(G(C, i).exp) : i \in relied}),
           ttl |-> PairMin({G(C, i).ottl : i \in relied})]
Answer == UNION {{<<SOwner(C, i), G(C, i).ct, r>> : r \in RRset(C, SOwner(C, i), G(C, i).ct)} : i \in {j \in okd : G(C, j).ct \notin {T_DS, T_NSEC, T_NSEC3}}}
Conclude ==
  /\ ph = "zones" /\ todo = {}
  /\ \/ /\ "no" \notin Denials /\ Answer # {} /\ PairLt(Window.vf, Window.ex) /\ End("ok")
     \/ /\ ~(Denials \subseteq {"yes"}) \/ Answer = {} \/ ~PairLt(Window.vf, Window.ex)
        /\ End("invalid")
  /\ UNCHANGED <<s, todo, seen, cur, left, relied, okd, uns, chk>>

Next == Pick \/ Present \/ StartZone \/ TryKeySig \/ TryDataSig \/ Conclude
Spec == Init /\ [][Next]_vars /\ WF_vars(Present \/ StartZone \/ TryKeySig \/ TryDataSig \/ Conclude)

----------------------------------------------------------------------------
\* The machine does what the declarative specification says.
Refines == ph = "done" =>
  LET a == Analysis(C) IN
  CASE res = "ok" -> OkAllowed(a, Answer, Window)
    [] res = "invalid" -> InvalidAllowed(a)
    [] res = "unsupported" -> UnsupportedAllowed(a)
\* And what has to be accepted is never refused.
Complete == ph = "done" =>
  LET a == Analysis(C) IN
  (a.can /\ a.err = {} /\ a.verified # {} /\ a.den \subseteq {"yes"} /\ \A w \in a.wins : PairLt(w.vf, w.ex)) => res = "ok"
Bounded == ph # "pick" => \A i \in SigIdx(C) : chk[i] <= 1
NoZoneTwice == todo \cap seen = {}
\* An attacker cannot make anything up outside its own zone (judged by what the
\* pool says was published, not by the definitions above).
Sound == ph = "done" /\ res = "ok" =>
  \A x \in Answer : Under(N(C, x[1]), P.evil) \/ <<N(C, x[1]), x[3]>> \in P.published
Terminates == ph = "zones" ~> ph = "done"
\* For replay on the code: each presented proof, once.
Export == ph = "done" => PrintT("SUB " \o res \o " " \o ToString(s))
=============================================================================
