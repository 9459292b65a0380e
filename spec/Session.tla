------------------------------ MODULE Session ------------------------------
(***************************************************************************)
(* The 1:1 system: parties, the messages they have produced, and what an   *)
(* application and an attacker who owns the network can do.  A command is  *)
(* a record; Apply(W, c) says what it does to the world W and which        *)
(* outcomes are permitted.  SessionMC explores all commands for small      *)
(* constants, SessionGen prints them for replay against the code, and      *)
(* SessionTrace applies the commands recorded from the code.               *)
(*                                                                         *)
(* A party is named by its address.  Keys in commands are references, so   *)
(* that commands mean the same here and in the code:                       *)
(*   <<"id", p>>  <<"spk", p, id>>  <<"opk", p, id>>                        *)
(*   <<"base", mid>>  <<"rk", mid>>     keys of a message                   *)
(*   <<"evil", n>>                      keys of the attacker                *)
(*   <<"low">>                          a low-order point                   *)
(*   <<"alias", ref>>                   another encoding of a key           *)
(***************************************************************************)
EXTENDS Ratchet

EvilBase == 1000000

RECURSIVE Key(_, _)
Key(W, ref) ==
    CASE ref[1] = "id"    -> W.P[ref[2]].id
      [] ref[1] = "spk"   -> W.allspk[<<ref[2], ref[3]>>]
      [] ref[1] = "opk"   -> W.allopk[<<ref[2], ref[3]>>]
      [] ref[1] = "base"  -> W.msgs[ref[2]].base
      [] ref[1] = "rk"    -> W.msgs[ref[2]].rk
      [] ref[1] = "evil"  -> EvilBase + ref[2]
      [] ref[1] = "low"   -> LowOrder
      [] ref[1] = "alias" -> -Key(W, ref[2])

OptKey(W, oref) == IF oref = <<>> THEN None ELSE Some(Key(W, oref[1]))

(* The world: P the parties; msgs what was encrypted, in order; nk the     *)
(* number of keys made; allspk, allopk every pre-key ever made; dl         *)
(* how often each message was delivered: <<party, sender address, mid>>; made     *)
(* how many sessions each one-time pre-key has set up.                     *)

World(ids) ==
    [P |-> [p \in DOMAIN ids |-> NewParty(ids[p].k, ids[p].reg)],
     msgs |-> <<>>, nk |-> 1 + Cardinality(DOMAIN ids),
     allspk |-> <<>>, allopk |-> <<>>, dl |-> <<>>, made |-> <<>>]

Bump(f, k) == Put(f, k, IF k \in DOMAIN f THEN f[k] + 1 ELSE 1)

\* The message delivered by a "dec" command: message c.m, with the changes
\* listed in c.d.  d.typ: "pk" / "sig" / "other" (a kind of
\* message which is not for sessions); rk, ctr: header; ok: whether all that
\* the MAC covers is unchanged; reg, opk, spk, base, idk: envelope.
Delivered(W, c) ==
    LET m == W.msgs[c.m]
        d == c.d
        has(f) == f \in DOMAIN d
        typ == IF has("typ") THEN d.typ ELSE m.typ
        h == [rk |-> IF has("rk") THEN Key(W, d.rk) ELSE m.rk,
              ctr |-> IF has("ctr") THEN d.ctr ELSE m.ctr, pc |-> m.pc,
              ck |-> m.ck, kctr |-> m.kctr, from |-> m.from, to |-> m.to,
              ok |-> IF has("ok") THEN d.ok ELSE TRUE, body |-> m.body]
        env(f, dflt) == IF has(f) THEN d[f] ELSE dflt
    IN  IF typ \in {"sig", "other"} THEN [typ |-> typ] @@ h
        ELSE [typ |-> "pk"] @@ h @@
             [opk |-> IF has("opk") THEN d.opk ELSE m.opk,
              spk |-> IF has("spk") THEN d.spk ELSE m.spk,
              base |-> IF has("base") THEN Key(W, d.base) ELSE m.base,
              idk |-> IF has("idk") THEN Key(W, d.idk) ELSE m.idk]

Bundle(W, c) ==
    [idk |-> Key(W, c.idk), spk |-> Key(W, c.spk), spkid |-> c.spkid,
     opk |-> OptKey(W, c.opk), opkid |-> c.opkid, sig |-> c.sig]

\* What the operation of command c yields, before any fault.
Outcome(W, c) ==
    CASE c.e = "bun" -> ProcessBundle(W.P[c.p], c.r, Bundle(W, c), W.nk, W.nk + 1)
      [] c.e = "enc" -> Encrypt(W.P[c.p], c.r, c.n)
      [] c.e = "dec" -> Decrypt(W.P[c.p], c.r, Delivered(W, c), W.nk)
      [] c.e = "ppk" -> ProcessPreKey(W.P[c.p], c.r, Delivered(W, c))

\* The party after an operation which got no further than the writes in w.
Durable(P, Q, w) ==
    LET did(x) == \E i \in 1..Len(w) : w[i] = x
    IN  [P EXCEPT !.ident = IF did("id") THEN Q.ident ELSE @,
                  !.sess = IF did("sess") THEN Q.sess ELSE @,
                  !.opk = IF did("opk") THEN Q.opk ELSE @]

\* The world after the operation of c got as far as the writes in w, and
\* its result was handed to the caller if done.
Commit(W, c, o, w, done) ==
    LET W1 == [W EXCEPT !.P[c.p] = Durable(@, o.P, w)]
    IN  CASE c.e = "bun" -> [W1 EXCEPT !.nk = @ + 2]
          [] c.e = "enc" ->
               IF ~done THEN W1
               ELSE [W1 EXCEPT !.msgs = @ \o [i \in 1..Len(c.keep) |->
                        NextMessage(W.P[c.p], c.r, c.keep[i], c.body + i - 1)]]
          [] c.e = "dec" ->
               LET W2 == [W1 EXCEPT !.nk = @ + 1,
                            !.dl = IF done THEN Bump(@, <<c.p, c.r, c.m>>) ELSE @]
                   m == Delivered(W, c)
               IN  IF o.tag = "new" /\ IsSome(m.opk)
                   THEN [W2 EXCEPT !.made = Bump(@, <<c.p, m.opk[1]>>)] ELSE W2
          [] c.e = "ppk" ->
               LET m == Delivered(W, c)
               IN  IF done /\ o.tag = "new" /\ IsSome(m.opk)
                   THEN [W1 EXCEPT !.made = Bump(@, <<c.p, m.opk[1]>>)] ELSE W1

\* Both ends of a session are made by the application out of keys which it
\* has brought across itself.  Its base key is never sent.
Initialize(W, c) ==
    LET A == W.P[c.p]
        B == W.P[c.r]
        spk == W.allspk[<<c.r, c.spkid>>]
        opk == OptKey(W, c.opk)
        sa == [AliceInit(A.id, W.nk, W.nk + 1, B.id, spk, opk, None, c.spkid, A.reg) EXCEPT !.pend = None]
        sb == BobInit(B.id, spk, opk, A.id, W.nk, B.reg)
    IN  [W EXCEPT !.P[c.p] = SetRec(A, c.r, Promote(Rec(A, c.r), sa)),
                  !.P[c.r] = SetRec(B, c.p, Promote(Rec(B, c.p), sb)),
                  !.nk = @ + 2]

Apply(W, c) ==
    CASE c.e \in {"bun", "enc", "dec", "ppk"} ->
           LET o == Outcome(W, c)
           IN  [exp |-> o.res, tag |-> o.tag,
                W |-> IF o.res = {"ok"} THEN Commit(W, c, o, o.w, TRUE) ELSE W]
      [] c.e = "spk" -> [exp |-> {"ok"}, tag |-> "",
                         W |-> [W EXCEPT !.P[c.p].spk = Put(@, c.id, W.nk), !.nk = @ + 1,
                                         !.allspk = Put(@, <<c.p, c.id>>, W.nk)]]
      [] c.e = "opk" -> [exp |-> {"ok"}, tag |-> "",
                         W |-> [W EXCEPT !.P[c.p].opk = Put(@, c.id, W.nk), !.nk = @ + 1,
                                         !.allopk = Put(@, <<c.p, c.id>>, W.nk)]]
      [] c.e = "ini" -> [exp |-> {"ok"}, tag |-> "", W |-> Initialize(W, c)]
      [] c.e = "arc" -> [exp |-> {"ok"}, tag |-> "", W |-> [W EXCEPT !.P[c.p] = ArchiveSession(@, c.r)]]
      [] c.e = "tru" -> [exp |-> {"ok"}, tag |-> "", W |-> [W EXCEPT !.P[c.p] = Pin(@, c.r, Key(W, c.k))]]
      [] c.e = "clr" -> [exp |-> {"ok"}, tag |-> "", W |-> [W EXCEPT !.P[c.p].ident = <<>>]]

\* To reach high counters: p's sending chain to r, and r's receiving chain
\* for it, are moved ahead as if by messages had been sent and received.
Lift(W, p, r, by) ==
    LET rec == Rec(W.P[p], r)
        up(P, q, f(_)) == SetRec(P, q, [Rec(P, q) EXCEPT !.cur = Some(f(@[1]))])
        rk == rec.cur[1].sc.rk
        W1 == [W EXCEPT !.P[p] = up(@, r, LAMBDA s : [s EXCEPT !.sc.idx = @ + by])]
    IN  IF ~IsSome(rec.cur) THEN W
        ELSE IF ~IsSome(Rec(W.P[r], p).cur) THEN W1
        ELSE [W1 EXCEPT !.P[r] = up(@, p, LAMBDA s : [s EXCEPT !.rc = [i \in 1..Len(@) |->
                IF @[i].rk = rk THEN [@[i] EXCEPT !.idx = @ + by] ELSE @[i]]])]

----------------------------------------------------------------------------
(* What an attacker who has copied a party's state can derive.             *)

AllStates(P) == UNION {States(P.sess[r]) : r \in DOMAIN P.sess}

\* Private keys in the stolen material.  full: identity and pre-keys too.
Privs(P, full) ==
    {s.sc.rk : s \in AllStates(P)}
    \cup (IF full THEN {P.id} \cup {P.spk[i] : i \in DOMAIN P.spk} \cup {P.opk[i] : i \in DOMAIN P.opk} ELSE {})

KnowsDH(K, dh) == dh[1] \in K \/ dh[2] \in K \/ dh[1] >= EvilBase \/ dh[2] >= EvilBase

RECURSIVE KnowsRoot(_, _, _)
KnowsRoot(R, K, root) ==
    \/ root \in R
    \/ root[1] = "r0" /\ \A i \in 1..Len(root[2][2]) : KnowsDH(K, root[2][2][i])
    \/ root[1] = "r" /\ KnowsDH(K, root[2]) /\ KnowsRoot(R, K, root[3])

KnowsChain(R, K, ck) ==
    \/ ck[1] = "c0" /\ \A i \in 1..Len(ck[2][2]) : KnowsDH(K, ck[2][2][i])
    \/ ck[1] = "c" /\ KnowsDH(K, ck[2]) /\ KnowsRoot(R, K, ck[3])

InSeq(x, s) == \E i \in 1..Len(s) : s[i] = x

Derivable(P, full, m) ==
    LET S == AllStates(P)
        R == {s.root : s \in S}
        K == Privs(P, full)
    IN  \/ \E s \in S : \/ s.sc.ck = m.ck /\ s.sc.idx <= m.kctr
                        \/ \E i \in 1..Len(s.rc) : s.rc[i].ck = m.ck /\ (s.rc[i].idx <= m.kctr \/ InSeq(m.kctr, s.rc[i].skip))
        \/ KnowsChain(R, K, m.ck)

----------------------------------------------------------------------------
(* Properties of a world *)

Parties(W) == DOMAIN W.P
Mids(W) == 1..Len(W.msgs)
Times(W, p, r, m) == IF <<p, r, m>> \in DOMAIN W.dl THEN W.dl[<<p, r, m>>] ELSE 0

\* C02: delivered at most once under one sender address
AtMostOnce(W) == \A k \in DOMAIN W.dl : W.dl[k] <= 1

\* C08: no message key twice
KeysUnique(W) == \A i, j \in Mids(W) : i # j => <<W.msgs[i].kctr, W.msgs[i].ck>> # <<W.msgs[j].kctr, W.msgs[j].ck>>

\* C03: only what was encrypted for this party, by the identity it was
\* accepted from
Authentic(W) == \A k \in DOMAIN W.dl : W.msgs[k[3]].to = W.P[k[1]].id

\* C07
OpkOnce(W) == \A k \in DOMAIN W.made : W.made[k] <= 1 /\ k[2] \notin DOMAIN W.P[k[1]].opk

\* C09: what was decrypted before is not derivable from the sessions stored
\* for its sender.  (A message which sets up a session without a one-time
\* pre-key can also be delivered under another address, where it is new.)
OnlyWith(P, r) == [P EXCEPT !.sess = [x \in {r} |-> @[r]]]
PastSafe(W) ==
    \A k \in DOMAIN W.dl : W.dl[k] >= 1 =>
        ~Derivable(OnlyWith(W.P[k[1]], k[2]), FALSE, W.msgs[k[3]])

\* ... and what a party has sent is not derivable from its own sessions
SentSafe(W) ==
    \A p \in Parties(W) : \A m \in Mids(W) :
        (W.msgs[m].from = W.P[p].id /\ W.msgs[m].to # W.P[p].id) => ~Derivable(W.P[p], FALSE, W.msgs[m])

\* C10: windows
Bounded(W) ==
    \A p \in Parties(W) : \A r \in DOMAIN W.P[p].sess :
        /\ Len(W.P[p].sess[r].prev) <= MaxArchived
        /\ \A s \in States(W.P[p].sess[r]) :
             /\ Len(s.rc) <= MaxChains
             /\ \A i \in 1..Len(s.rc) : Len(s.rc[i].skip) <= MaxKeys
                  /\ \A j \in 1..Len(s.rc[i].skip) : s.rc[i].skip[j] < s.rc[i].idx

\* C01: a message within the windows decrypts.  Windows are judged without
\* the decryption algorithm: the session is kept (or can still be set up),
\* its chain has not been dropped, and too little was skipped after it for
\* its key to have been dropped.
InWindow(W, q, r, m) ==
    LET P == W.P[q]
        rec == Rec(P, r)
        S == {s \in States(rec) : s.base = m.base0}
    IN  /\ m.to = P.id
        /\ Trusts(P, r, m.from)
        /\ IF S = {}
           THEN /\ m.typ = "pk" /\ m.spk \in DOMAIN P.spk
                /\ IsSome(m.opk) => m.opk[1] \in DOMAIN P.opk
                /\ m.kctr <= MaxJumps
           ELSE LET s == CHOOSE s \in S : TRUE
                    i == ChainIdx(s, m.rk)
                IN  IF i = 0
                    THEN m.kctr <= MaxJumps /\ Len(s.rc) < MaxChains
                    ELSE IF s.rc[i].idx <= m.kctr
                    THEN m.kctr - s.rc[i].idx <= MaxJumps
                    ELSE s.rc[i].idx - m.kctr <= MaxKeys
============================================================================
