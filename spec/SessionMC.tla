----------------------------- MODULE SessionMC -----------------------------
(* All histories of the 1:1 system within small constants. *)
EXTENDS Session

CONSTANTS Addrs,       \* parties, e.g. {"a", "b"}
          Starters,    \* pairs <<p, r>> where p may process r's bundle
          OpkIds,      \* ids of one-time pre-keys each responder has ({} for none)
          NoOpk,       \* whether bundles without one-time pre-key are used
          MaxBundles, MaxMsgs, MaxDec, \* how much may happen
          Batch,       \* sizes of encryption batches
          Muts,        \* kinds of tampering
          Extra,       \* other commands: subset of {"arc", "tru", "clr", "badsig", "ppk", "ini"}
          MaxExtra

StartAB == {<<"a", "b">>}
StartBoth == {<<"a", "b">>, <<"b", "a">>}
StartAC == {<<"a", "b">>, <<"c", "b">>}

VARIABLES W, n         \* n: what has happened: [b, d, x]

vars == <<W, n>>

IdNum == LET f == CHOOSE f \in [Addrs -> 1..Cardinality(Addrs)] :
                      \A p, q \in Addrs : p # q => f[p] # f[q]
         IN  f

\* Every party starts with one signed pre-key and its one-time pre-keys.
RECURSIVE Setup(_, _)
Setup(W0, S) ==
    IF S = {} THEN W0
    ELSE LET p == CHOOSE p \in S : TRUE
             W1 == Apply(W0, [e |-> "spk", p |-> p, id |-> "1"]).W
             RECURSIVE add(_, _)
             add(V, I) == IF I = {} THEN V
                          ELSE LET i == CHOOSE i \in I : TRUE
                               IN  add(Apply(V, [e |-> "opk", p |-> p, id |-> i]).W, I \ {i})
         IN  Setup(add(W1, OpkIds), S \ {p})

Init ==
    /\ W = Setup(World([p \in Addrs |-> [k |-> IdNum[p], reg |-> "7"]]), Addrs)
    /\ n = [b |-> 0, d |-> 0, x |-> 0]

BundleCmds ==
    {[e |-> "bun", p |-> s[1], r |-> s[2], idk |-> <<"id", s[2]>>, spk |-> <<"spk", s[2], "1">>, spkid |-> "1",
      opk |-> o, opkid |-> IF o = <<>> THEN <<>> ELSE <<o[1][3]>>, sig |-> g] :
        s \in Starters,
        o \in (IF NoOpk THEN {<<>>} ELSE {}) \cup {<<<<"opk", "", i>>>> : i \in OpkIds},
        g \in {TRUE} \cup (IF "badsig" \in Extra THEN {FALSE} ELSE {})}

\* the reference names the owner of the one-time pre-key
FixOpk(c) == IF c.opk = <<>> THEN c ELSE [c EXCEPT !.opk = <<<<"opk", c.r, c.opk[1][3]>>>>]

EncCmds ==
    {[e |-> "enc", p |-> p, r |-> r, n |-> k, keep |-> [i \in 1..k |-> i - 1], body |-> Len(W.msgs) + 1] :
        p \in Addrs, r \in Addrs, k \in Batch}

Muted(m) ==
    {<<>>}
    \cup (IF "bad" \in Muts THEN {[ok |-> FALSE]} ELSE {})
    \cup (IF "unwrap" \in Muts /\ W.msgs[m].typ = "pk" THEN {[typ |-> "sig"]} ELSE {})
    \cup (IF "other" \in Muts THEN {[typ |-> "other"]} ELSE {})
    \cup (IF "alias" \in Muts /\ W.msgs[m].typ = "pk" THEN {[base |-> <<"alias", <<"base", m>>>>]} ELSE {})
    \cup (IF "evilbase" \in Muts /\ W.msgs[m].typ = "pk" THEN {[base |-> <<"evil", 1>>]} ELSE {})
    \cup (IF "evilid" \in Muts /\ W.msgs[m].typ = "pk" THEN {[idk |-> <<"evil", 2>>]} ELSE {})
    \cup (IF "noopk" \in Muts /\ W.msgs[m].typ = "pk" /\ IsSome(W.msgs[m].opk) THEN {[opk |-> <<>>]} ELSE {})
    \cup (IF "rewrap" \in Muts
          THEN {[typ |-> "pk", base |-> <<"base", k>>, opk |-> W.msgs[k].opk, spk |-> "1", idk |-> <<"id", p>>] :
                  k \in {k \in Mids(W) : W.msgs[k].typ = "pk" /\ W.msgs[k].base # W.msgs[m].base0},
                  p \in {p \in Addrs : W.P[p].id = W.msgs[m].from}}
          ELSE {})
    \cup (IF "low" \in Muts THEN {[rk |-> <<"low">>, ok |-> FALSE]} ELSE {})
    \cup (IF "far" \in Muts THEN {[ctr |-> W.msgs[m].ctr + MaxJumps + 1, ok |-> FALSE]} ELSE {})

DecCmds ==
    UNION {{[e |-> "dec", p |-> p, r |-> r, m |-> m, d |-> d] :
              p \in Addrs, r \in Addrs, d \in Muted(m)} : m \in Mids(W)}

ExtraCmds ==
    (IF "arc" \in Extra THEN {[e |-> "arc", p |-> p, r |-> r] : p \in Addrs, r \in Addrs} ELSE {})
    \cup (IF "tru" \in Extra THEN {[e |-> "tru", p |-> p, r |-> r, k |-> k] :
                                     p \in Addrs, r \in Addrs, k \in {<<"evil", 3>>} \cup {<<"id", q>> : q \in Addrs}} ELSE {})
    \cup (IF "ppk" \in Extra THEN {[e |-> "ppk", p |-> p, r |-> r, m |-> m, d |-> <<>>] : p \in Addrs, r \in Addrs,
                                     m \in {m \in Mids(W) : W.msgs[m].typ = "pk"}} ELSE {})
    \cup (IF "ini" \in Extra THEN UNION {{[e |-> "ini", p |-> s[1], r |-> s[2], spkid |-> "1", opk |-> o] :
                                     o \in {<<>>} \cup {<<<<"opk", s[2], i>>>> : i \in OpkIds}} : s \in Starters} ELSE {})
    \cup (IF "clr" \in Extra THEN {[e |-> "clr", p |-> p] : p \in Addrs} ELSE {})

\* Only commands which make sense are explored: parties talk to others
\* they have a session with, or get messages not made by themselves.
Sensible(c) ==
    CASE c.e = "enc" -> c.p # c.r /\ c.r \in DOMAIN W.P[c.p].sess
      [] c.e = "dec" -> c.p # c.r /\ W.msgs[c.m].from # W.P[c.p].id
      [] c.e = "ppk" -> W.msgs[c.m].to = W.P[c.p].id /\ W.msgs[c.m].from = W.P[c.r].id
      [] c.e = "arc" -> c.r \in DOMAIN W.P[c.p].sess /\ IsSome(W.P[c.p].sess[c.r].cur)
      [] c.e = "tru" -> c.p # c.r /\ Get(W.P[c.p].ident, c.r) # <<Key(W, c.k)>>
      [] c.e = "clr" -> DOMAIN W.P[c.p].ident # {}
      [] OTHER -> TRUE

Cmds ==
    {c \in (IF n.b < MaxBundles THEN {FixOpk(c) : c \in BundleCmds} ELSE {})
       \cup (IF Len(W.msgs) < MaxMsgs THEN EncCmds ELSE {})
       \cup (IF n.d < MaxDec THEN DecCmds ELSE {})
       \cup (IF n.x < MaxExtra THEN ExtraCmds ELSE {}) : Sensible(c)}

Count(c) ==
    CASE c.e = "bun" -> [n EXCEPT !.b = @ + 1]
      [] c.e = "enc" -> n
      [] c.e = "dec" -> [n EXCEPT !.d = @ + 1]
      [] OTHER -> [n EXCEPT !.x = @ + 1]

\* commands which are refused change nothing and are not counted
Do(c) == LET a == Apply(W, c) IN W' = a.W /\ n' = IF "ok" \in a.exp THEN Count(c) ELSE n

Bun == \E c \in Cmds : c.e = "bun" /\ Do(c)
Enc == \E c \in Cmds : c.e = "enc" /\ Do(c)
Dec == \E c \in Cmds : c.e = "dec" /\ Do(c)
Oth == \E c \in Cmds : c.e \notin {"bun", "enc", "dec"} /\ Do(c)

Next == Bun \/ Enc \/ Dec \/ Oth
Spec == Init /\ [][Next]_vars

----------------------------------------------------------------------------
InvAtMostOnce == AtMostOnce(W)
InvKeysUnique == KeysUnique(W)
InvAuthentic == Authentic(W)
InvOpkOnce == OpkOnce(W)
InvPastSafe == PastSafe(W)
InvSentSafe == SentSafe(W)
InvBounded == Bounded(W)

AddrOf(k) == CHOOSE p \in Addrs : W.P[p].id = k

\* no message was delivered under the address of someone else, which would
\* set up a session with the sender under that address
Honest == \A k \in DOMAIN W.dl : W.msgs[k[3]].from = W.P[k[2]].id

\* C01
InvDelivery == Honest =>
    \A q \in Addrs : \A m \in Mids(W) :
        (W.msgs[m].to = W.P[q].id /\ W.msgs[m].from # W.P[q].id /\ Times(W, q, AddrOf(W.msgs[m].from), m) = 0
           /\ InWindow(W, q, AddrOf(W.msgs[m].from), W.msgs[m]))
        => Decrypt(W.P[q], AddrOf(W.msgs[m].from), W.msgs[m], W.nk).res = {"ok"}

\* C02, second half: an exact replay is reported as a duplicate while the
\* session is kept and trusted and its chain not dropped
InvReplayIsDup ==
    \A k \in DOMAIN W.dl :
        LET q == k[1]
            m == W.msgs[k[3]]
            r == k[2]
        IN  (\A s \in States(Rec(W.P[q], r)) : Len(s.rc) < MaxChains)
            /\ (\E s \in States(Rec(W.P[q], r)) : s.base = m.base0) /\ Trusts(W.P[q], r, m.from)
            => Decrypt(W.P[q], r, m, W.nk).res = {"dup"}

\* C05: what is pinned changes only by the application's own commands, which
\* change nothing else; and a party's sessions are with pinned identities
PinStable ==
    [][\A p \in Addrs : \A r \in DOMAIN W.P[p].ident :
          (r \notin DOMAIN W'.P[p].ident \/ W'.P[p].ident[r] # W.P[p].ident[r])
            => W'.P[p].sess = W.P[p].sess /\ W'.msgs = W.msgs /\ W'.dl = W.dl]_vars

InvPinned == Extra \cap {"tru", "clr", "ini"} = {} =>
    \A p \in Addrs : \A r \in DOMAIN W.P[p].sess :
        r \in DOMAIN W.P[p].ident /\ \A s \in States(W.P[p].sess[r]) : s.rid = W.P[p].ident[r]

\* C11: both ends converge: if each has decrypted with the other's current
\* session, they share one
InvCurrent == \A p \in Addrs : \A r \in DOMAIN W.P[p].sess :
    LET rec == W.P[p].sess[r]
    IN  IsSome(rec.cur) => \A i \in 1..Len(rec.prev) : rec.prev[i].base # rec.cur[1].base

\* C08: ratchet keys are fresh
InvRatchetFresh == \A p \in Addrs : \A r \in DOMAIN W.P[p].sess :
    \A s, t \in States(W.P[p].sess[r]) : (s # t /\ s.rc # <<>> /\ t.rc # <<>>) => s.sc.rk # t.sc.rk

\* C07: pre-keys disappear only when they set up a session
OpkStable ==
    [][\A p \in Addrs : \A i \in DOMAIN W.P[p].opk \ DOMAIN W'.P[p].opk :
          \E m \in Mids(W), r \in Addrs :
             \/ Times(W', p, r, m) = Times(W, p, r, m) + 1
             \/ W.msgs[m].typ = "pk" /\ HasBase(Rec(W'.P[p], r), W.msgs[m].base) /\ ~HasBase(Rec(W.P[p], r), W.msgs[m].base)]_vars
\* What honest parties get to by talking, from any state: one encrypts and
\* the other decrypts it.  <<>> if one of them cannot.
Send(V, p, r) ==
    IF V = <<>> THEN V
    ELSE LET x == Apply(V[1], [e |-> "enc", p |-> p, r |-> r, n |-> 1, keep |-> <<0>>, body |-> Len(V[1].msgs) + 1])
         IN  IF "ok" \notin x.exp THEN <<>>
             ELSE LET y == Apply(x.W, [e |-> "dec", p |-> r, r |-> p, m |-> Len(x.W.msgs), d |-> <<>>])
                  IN  IF "ok" \in y.exp THEN <<y.W>> ELSE <<>>
Exchange(V, p, r) == Send(Send(V, p, r), r, p)
Pairs == {x \in Addrs \X Addrs : x[1] # x[2] /\ x[2] \in DOMAIN W.P[x[1]].sess}

\* C11: one message is enough to agree on a session again, and its answer is
\* sent in the same
InvConverge ==
    \A x \in Pairs :
        LET V == Exchange(<<W>>, x[1], x[2])
        IN  V # <<>> =>
              LET a == V[1].P[x[1]].sess[x[2]].cur
                  b == V[1].P[x[2]].sess[x[1]].cur
              IN  /\ IsSome(a) /\ IsSome(b) /\ a[1].base = b[1].base
                  /\ a[1].base = W.P[x[1]].sess[x[2]].cur[1].base
                  /\ V[1].msgs[Len(V[1].msgs)].typ = "sig"

\* C09: whoever steals everything a party has learns nothing any more of
\* what is sent after two exchanges
InvHeals ==
    \A x \in Pairs :
        LET V == Exchange(Exchange(<<W>>, x[2], x[1]), x[2], x[1])
            U == Exchange(V, x[2], x[1])
        IN  U # <<>> => \A m \in (Len(V[1].msgs) + 1)..Len(U[1].msgs) : ~Derivable(W.P[x[1]], TRUE, U[1].msgs[m])

\* ... but it is not one exchange too many
HealsEarly ==
    \A x \in Pairs :
        LET V == Send(<<W>>, x[2], x[1])
        IN  V # <<>> => ~Derivable(W.P[x[1]], TRUE, V[1].msgs[Len(V[1].msgs)])

\* Every command, in every state: what is refused changes nothing (C04);
\* what is decrypted is unchanged, and was encrypted for this party (C03);
\* whoever was talked to is pinned, nobody else, and was not pinned to
\* something else (C05).
Peer(c) ==
    CASE c.e = "bun" -> Key(W, c.idk)
      [] c.e = "enc" -> W.P[c.p].sess[c.r].cur[1].rid
      [] c.e \in {"dec", "ppk"} -> W.msgs[c.m].from

InvCommands ==
    \A c \in Cmds :
        LET a == Apply(W, c)
            P == W.P[c.p]
            Q == a.W.P[c.p]
        IN  IF "ok" \notin a.exp THEN a.W = W
            ELSE /\ \A q \in Addrs \ {c.p, IF c.e = "ini" THEN c.r ELSE c.p} : a.W.P[q] = W.P[q]
                 /\ c.e = "dec" =>
                      LET m == Delivered(W, c)
                      IN  m.ok /\ m.ctr = m.kctr /\ m.to = P.id
                 /\ c.e \in {"bun", "enc", "dec", "ppk"} =>
                      LET k == Peer(c)
                      IN  Get(P.ident, c.r) \in {<<>>, <<k>>} /\ Q.ident = Put(P.ident, c.r, k)
                 /\ c.e = "bun" => c.sig
                 /\ c.e \notin {"bun", "enc", "dec", "arc", "ppk", "ini"} => Q.sess = P.sess
=============================================================================
