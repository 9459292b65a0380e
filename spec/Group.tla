------------------------------- MODULE Group -------------------------------
(***************************************************************************)
(* Group messaging with sender keys.  As in Session, a command is a record *)
(* and Apply(W, c) says what it does to the world W and which outcomes are *)
(* permitted; GroupMC explores, GroupGen prints and GroupTrace follows     *)
(* commands.                                                               *)
(*                                                                         *)
(* A sender key is a chain which starts from a random seed.  The key of    *)
(* chain s after n steps is <<s, n>>; the message key number n is derived  *)
(* from it.  Chain keys determine later ones but not earlier ones, nor can *)
(* a message key be turned into a chain key.                               *)
(*                                                                         *)
(* A state of a sender key is                                              *)
(*   [cid: chain id, sk: signing key, priv: whether the private signing    *)
(*    key is held, seed, off: chain key, it: its iteration, join: the      *)
(*    iteration it was added with, skip: skipped keys, oldest first]       *)
(* and a record, per sender address and group, is a sequence of states,    *)
(* oldest first.                                                           *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

CONSTANTS MaxJumps, MaxKeys, MaxStates

Put(f, k, v) == IF k \in DOMAIN f THEN [f EXCEPT ![k] = v] ELSE f @@ (k :> v)
Bump(f, k) == Put(f, k, IF k \in DOMAIN f THEN f[k] + 1 ELSE 1)
InSeq(x, s) == \E i \in 1..Len(s) : s[i] = x

EvilBase == 1000000

Rec(P, r, did) == IF <<r, did>> \in DOMAIN P.grp THEN P.grp[<<r, did>>] ELSE <<>>

\* index of the state for a chain id, 0 if there is none
RECURSIVE Find(_, _, _)
Find(rec, cid, i) == IF i > Len(rec) THEN 0 ELSE IF rec[i].cid = cid THEN i ELSE Find(rec, cid, i + 1)

Without(rec, cid) == SelectSeq(rec, LAMBDA s : s.cid # cid)

\* A state is added as the newest.  One with the same chain id and signing
\* key is kept instead of it, others with that chain id go.
AddState(rec, s) ==
    LET i == Find(rec, s.cid, 1)
        kept == IF i > 0 /\ rec[i].sk = s.sk THEN rec[i] ELSE s
        rest == Without(rec, s.cid)
        room == IF Len(rest) >= MaxStates THEN SubSeq(rest, 2, Len(rest)) ELSE rest
    IN  Append(room, kept)

\* The state added last is the one to send under.
Top(rec) == Len(rec)
Current(rec) == rec[Top(rec)]

Fail(P, res, tag) == [res |-> res, tag |-> tag, P |-> P, w |-> <<>>]
Done(P, tag) == [res |-> {"ok"}, tag |-> tag, P |-> P, w |-> <<"grp">>]

----------------------------------------------------------------------------
\* NewSenderKeyDistribution: creates the sender key when there is none, and
\* yields what members need from here on.
Distribute(P, self, did, cid, seed, sk) ==
    LET rec == Rec(P, self, did)
        s == [cid |-> cid, sk |-> sk, priv |-> TRUE, seed |-> seed, off |-> 0, it |-> 0, join |-> 0, skip |-> <<>>]
    IN  IF rec = <<>>
        THEN Done([P EXCEPT !.grp = Put(@, <<self, did>>, <<s>>)], "create")
        ELSE [res |-> {"ok"}, tag |-> "again", P |-> P, w |-> <<>>]

\* The application adds a sender key of its own to the record it has, to send
\* under from here on.
Rotate(P, self, did, cid, seed, sk) ==
    LET rec == Rec(P, self, did)
        s == [cid |-> cid, sk |-> sk, priv |-> TRUE, seed |-> seed, off |-> 0, it |-> 0, join |-> 0, skip |-> <<>>]
    IN  Done([P EXCEPT !.grp = Put(@, <<self, did>>, AddState(rec, s))],
             IF rec = <<>> THEN "create" ELSE IF Find(rec, cid, 1) # 0 THEN "replace" ELSE IF Len(rec) >= MaxStates THEN "evict" ELSE "add")

DistOf(P, self, did) ==
    LET s == Current(Rec(P, self, did))
    IN  [did |-> did, cid |-> s.cid, it |-> s.it, seed |-> s.seed, off |-> s.off, sk |-> s.sk]

\* ProcessSenderKeyDistribution
Process(P, r, d) ==
    LET rec == Rec(P, r, d.did)
        s == [cid |-> d.cid, sk |-> d.sk, priv |-> FALSE, seed |-> d.seed, off |-> d.off, it |-> d.it, join |-> d.it, skip |-> <<>>]
        i == Find(rec, d.cid, 1)
    IN  Done([P EXCEPT !.grp = Put(@, <<r, d.did>>, AddState(rec, s))],
             IF i = 0 THEN (IF Len(rec) >= MaxStates THEN "evict" ELSE "add") ELSE IF rec[i].sk = d.sk THEN "known" ELSE "replace")

Advance(i, n) == i + n

\* EncryptMessage, n times
Encrypt(P, self, did, n) ==
    LET rec == Rec(P, self, did)
    IN  IF rec = <<>> THEN Fail(P, {"inv"}, "none")
        ELSE IF ~Current(rec).priv THEN Fail(P, {"inv"}, "notowner")
        ELSE Done([P EXCEPT !.grp[<<self, did>>][Top(rec)] = [@ EXCEPT !.off = Advance(@, n), !.it = Advance(@, n)]], "enc")

\* the i-th message (from 0) of an encryption
Made(P, self, did, i, body) ==
    LET s == Current(Rec(P, self, did))
    IN  [did |-> did, cid |-> s.cid, it |-> s.it + i, seed |-> s.seed, off |-> s.off + i, sk |-> s.sk,
         from |-> self, ok |-> TRUE, body |-> body]

\* keys k .. k + n - 1 appended to the skipped ones, of which MaxKeys remain
Skip(skip, it, off, n) ==
    LET len == Len(skip) + n
        drop == IF len > MaxKeys THEN len - MaxKeys ELSE 0
        old == IF drop >= Len(skip) THEN <<>> ELSE SubSeq(skip, drop + 1, Len(skip))
        gone == IF drop > Len(skip) THEN drop - Len(skip) ELSE 0
    IN  old \o [i \in 1..(n - gone) |-> [it |-> it + gone + i - 1, off |-> off + gone + i - 1]]

Signed(s, m) == m.ok /\ s.sk = m.sk
TakeOut(skip, j) == SubSeq(skip, 1, j - 1) \o SubSeq(skip, j + 1, Len(skip))
After(i) == i + 1

\* DecryptMessage
Decrypt(P, r, m) ==
    LET rec == Rec(P, r, m.did)
        i == Find(rec, m.cid, 1)
    IN  IF i = 0 THEN Fail(P, {"inv"}, "none")
        ELSE LET s == rec[i]
                 set(t) == [P EXCEPT !.grp[<<r, m.did>>][i] = t]
             IN  IF ~Signed(s, m) THEN Fail(P, {"inv"}, "sig")
                 ELSE IF m.it < s.it
                 THEN LET J == {j \in 1..Len(s.skip) : s.skip[j].it = m.it}
                      IN  IF J = {} THEN Fail(P, {"dup"}, IF m.it < s.join THEN "before" ELSE "old")
                          ELSE LET j == CHOOSE j \in J : TRUE
                                   k == s.skip[j]
                               IN  IF s.seed # m.seed \/ k.off # m.off THEN Fail(P, {"inv"}, "mix")
                                   ELSE Done(set([s EXCEPT !.skip = TakeOut(@, j)]), "skip")
                 ELSE LET jump == m.it - s.it
                      IN  IF jump > MaxJumps THEN Fail(P, {"inv"}, "far")
                          ELSE IF s.seed # m.seed \/ s.off + jump # m.off THEN Fail(P, {"inv"}, "mix")
                          ELSE Done(set([s EXCEPT !.skip = Skip(@, s.it, s.off, jump),
                                                  !.it = After(m.it), !.off = After(m.off)]),
                                    IF jump = 0 THEN "next" ELSE "jump")

----------------------------------------------------------------------------
(* The world: P the parties; dists, msgs what was produced; nk the number  *)
(* of keys made; dl how often each message was delivered, per              *)
(* <<party, sender address, mid, signing key>>, since that was added.      *)

World(ps) == [P |-> [p \in ps |-> [grp |-> <<>>]], dists |-> <<>>, msgs |-> <<>>, nk |-> 1, dl |-> <<>>]

Evil(ref) == EvilBase + ref[2]

\* What is processed or decrypted: something produced, with changes d.
DistBy(W, c) ==
    LET x == W.dists[c.x]
        d == c.d
        has(f) == f \in DOMAIN d
    IN  [did |-> IF has("did") THEN d.did ELSE x.did, cid |-> IF has("cid") THEN d.cid ELSE x.cid,
         it |-> IF has("it") THEN d.it ELSE x.it, seed |-> IF has("seed") THEN Evil(d.seed) ELSE x.seed,
         off |-> IF has("seed") THEN 0 ELSE x.off, sk |-> IF has("sk") THEN Evil(d.sk) ELSE x.sk]

Delivered(W, c) ==
    LET m == W.msgs[c.m]
        d == c.d
        has(f) == f \in DOMAIN d
        touched == has("did") \/ has("cid") \/ has("it")
    IN  [did |-> IF has("did") THEN d.did ELSE m.did, cid |-> IF has("cid") THEN d.cid ELSE m.cid,
         it |-> IF has("it") THEN d.it ELSE m.it, seed |-> m.seed, off |-> m.off,
         sk |-> IF has("sk") THEN Evil(d.sk) ELSE m.sk, from |-> m.from,
         ok |-> IF has("ok") THEN d.ok ELSE has("sk") \/ ~touched, body |-> m.body]

Outcome(W, c) ==
    CASE c.e = "skd" -> Distribute(W.P[c.p], c.p, c.did, c.cid, W.nk, W.nk + 1)
      [] c.e = "rot" -> Rotate(W.P[c.p], c.p, c.did, c.cid, W.nk, W.nk + 1)
      [] c.e = "prc" -> Process(W.P[c.p], c.r, DistBy(W, c))
      [] c.e = "enc" -> Encrypt(W.P[c.p], c.p, c.did, c.n)
      [] c.e = "dec" -> Decrypt(W.P[c.p], c.r, Delivered(W, c))

\* deliveries under sender keys which are no longer held are forgotten
Forget(W, p, r, did, rec) ==
    LET gone(m, sk) == m.did = did /\ ~ \E i \in 1..Len(rec) : rec[i].cid = m.cid /\ rec[i].sk = sk
        keep == {k \in DOMAIN W.dl : ~(k[1] = p /\ k[2] = r /\ gone(W.msgs[k[3]], k[4]))}
    IN  [k \in keep |-> W.dl[k]]

Commit(W, c, o, w, done) ==
    LET stored == InSeq("grp", w)
        W1 == IF stored THEN [W EXCEPT !.P[c.p] = o.P] ELSE W
    IN  CASE c.e = "skd" ->
               LET W2 == [W1 EXCEPT !.nk = @ + 2]
               IN  IF done THEN [W2 EXCEPT !.dists = Append(@, DistOf(o.P, c.p, c.did))] ELSE W2
          [] c.e = "rot" -> [(IF stored THEN [W1 EXCEPT !.dl = Forget(W, c.p, c.p, c.did, Rec(o.P, c.p, c.did))] ELSE W1) EXCEPT !.nk = @ + 2]
          [] c.e = "prc" -> IF stored THEN LET did == DistBy(W, c).did
                                           IN  [W1 EXCEPT !.dl = Forget(W, c.p, c.r, did, Rec(o.P, c.r, did))]
                            ELSE W1
          [] c.e = "enc" -> IF ~done THEN W1
                            ELSE [W1 EXCEPT !.msgs = @ \o [i \in 1..Len(c.keep) |-> Made(W.P[c.p], c.p, c.did, c.keep[i], c.body + i - 1)]]
          [] c.e = "dec" -> IF done THEN [W1 EXCEPT !.dl = Bump(@, <<c.p, c.r, c.m, Delivered(W, c).sk>>)] ELSE W1

\* The application forgets its own sender key, to start a new one.
Reset(W, p, did) ==
    LET P == W.P[p]
        rest == DOMAIN P.grp \ {<<p, did>>}
    IN  [W EXCEPT !.P[p].grp = [k \in rest |-> P.grp[k]],
                  !.dl = [k \in {k \in DOMAIN W.dl : ~(k[1] = p /\ k[2] = p /\ W.msgs[k[3]].did = did)} |-> W.dl[k]]]

\* To reach high iterations: p's sender key is moved ahead wherever it is
\* held, as if messages had been sent and received.
Lift(W, p, did, by) ==
    LET own == Rec(W.P[p], p, did)
        cid == Current(own).cid
        sk == Current(own).sk
        up(q) == LET rec == Rec(W.P[q], p, did)
                     i == Find(rec, cid, 1)
                 IN  IF i = 0 \/ rec[i].sk # sk THEN W.P[q] ELSE [W.P[q] EXCEPT !.grp[<<p, did>>][i].it = @ + by]
    IN  IF own = <<>> THEN W ELSE [W EXCEPT !.P = [q \in DOMAIN W.P |-> up(q)]]

Apply(W, c) ==
    IF c.e = "rst" THEN [exp |-> {"ok"}, tag |-> "", W |-> Reset(W, c.p, c.did)]
    ELSE LET o == Outcome(W, c)
         IN  [exp |-> o.res, tag |-> o.tag, W |-> IF o.res = {"ok"} THEN Commit(W, c, o, o.w, TRUE) ELSE W]

----------------------------------------------------------------------------
(* What an attacker who has copied what a party stores can do              *)

HeldBy(P, r) == UNION {{P.grp[k][i] : i \in 1..Len(P.grp[k])} : k \in {k \in DOMAIN P.grp : k[1] = r}}
Held(P) == UNION {{P.grp[k][i] : i \in 1..Len(P.grp[k])} : k \in DOMAIN P.grp}

Reveals(S, m) ==
    \E s \in S : s.seed = m.seed /\ (s.off <= m.off \/ \E j \in 1..Len(s.skip) : s.skip[j].off = m.off)

Derivable(P, m) == Reveals(Held(P), m)
Signs(P, sk) == \E s \in Held(P) : s.priv /\ s.sk = sk

----------------------------------------------------------------------------
(* Properties of a world *)

Mids(W) == 1..Len(W.msgs)
Times(W, p, r, m) == LET k == <<p, r, m, W.msgs[m].sk>> IN IF k \in DOMAIN W.dl THEN W.dl[k] ELSE 0

\* C13
AtMostOnce(W) == \A k \in DOMAIN W.dl : W.dl[k] <= 1

\* C08
KeysUnique(W) == \A i, j \in Mids(W) : i # j => <<W.msgs[i].seed, W.msgs[i].off>> # <<W.msgs[j].seed, W.msgs[j].off>>

\* C15
Bounded(W) ==
    \A p \in DOMAIN W.P : \A k \in DOMAIN W.P[p].grp :
        LET rec == W.P[p].grp[k]
        IN  /\ Len(rec) <= MaxStates /\ Len(rec) > 0
            /\ \A i \in 1..Len(rec) : Len(rec[i].skip) <= MaxKeys
            /\ \A i, j \in 1..Len(rec) : i # j => rec[i].cid # rec[j].cid

\* C25: nothing delivered, and nothing from before joining, is revealed by
\* what is held for its sender
PastSafe(W) ==
    \A k \in DOMAIN W.dl : ~Reveals({s \in HeldBy(W.P[k[1]], k[2]) : s.sk = k[4]}, W.msgs[k[3]])

SentSafe(W) ==
    \A m \in Mids(W) : ~Reveals(HeldBy(W.P[W.msgs[m].from], W.msgs[m].from), W.msgs[m])

OnlyOwnerSigns(W) ==
    \A p \in DOMAIN W.P : \A k \in DOMAIN W.P[p].grp :
        \A i \in 1..Len(W.P[p].grp[k]) : W.P[p].grp[k][i].priv => k[1] = p
=============================================================================
