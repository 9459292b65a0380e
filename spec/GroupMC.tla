------------------------------ MODULE GroupMC ------------------------------
(* All histories of group messaging within small constants. *)
EXTENDS Group

CONSTANTS Addrs,       \* parties
          Senders,     \* those who send
          Dids,        \* groups
          MaxKeysMade, \* sender keys made in all
          MaxDists, MaxMsgs, MaxDec, MaxProc, MaxReset,
          Batch,       \* sizes of encryption batches
          Muts,        \* kinds of tampering with messages
          DMuts        \* kinds of crafted distributions

VARIABLES W, n         \* n: what has happened: [d, p, r, k]

vars == <<W, n>>

Init == W = World(Addrs) /\ n = [d |-> 0, p |-> 0, r |-> 0, k |-> 0]

Cid(k) == IF k = 0 THEN "100" ELSE IF k = 1 THEN "101" ELSE IF k = 2 THEN "102" ELSE "103"

Creates(p, did) == Rec(W.P[p], p, did) = <<>>

DistCmds == {[e |-> "skd", p |-> p, did |-> g, cid |-> Cid(n.k)] : p \in Senders, g \in Dids}
EncCmds == {[e |-> "enc", p |-> p, did |-> g, n |-> k, keep |-> [i \in 1..k |-> i - 1], body |-> Len(W.msgs) + 1] :
              p \in Senders, g \in Dids, k \in Batch}

DMuted(x) ==
    {<<>>}
    \cup (IF "sk" \in DMuts THEN {[sk |-> <<"evil", 1>>]} ELSE {})
    \cup (IF "did" \in DMuts THEN {[did |-> g] : g \in Dids \ {W.dists[x].did}} ELSE {})
    \cup (IF "seed" \in DMuts THEN {[seed |-> <<"evil", 2>>, sk |-> <<"evil", 1>>]} ELSE {})

ProcCmds == UNION {{[e |-> "prc", p |-> p, r |-> r, x |-> x, d |-> d] : p \in Addrs, r \in Senders, d \in DMuted(x)} :
                     x \in 1..Len(W.dists)}

Muted(m) ==
    {<<>>}
    \cup (IF "bad" \in Muts THEN {[ok |-> FALSE]} ELSE {})
    \cup (IF "evil" \in Muts THEN {[sk |-> <<"evil", 1>>]} ELSE {})
    \cup (IF "it" \in Muts THEN {[it |-> W.msgs[m].it + 1], [it |-> W.msgs[m].it + 1, sk |-> <<"evil", 1>>]} ELSE {})
    \cup (IF "did" \in Muts THEN {[did |-> g] : g \in Dids \ {W.msgs[m].did}} ELSE {})

DecCmds == UNION {{[e |-> "dec", p |-> p, r |-> r, m |-> m, d |-> d] : p \in Addrs, r \in Senders, d \in Muted(m)} :
                    m \in Mids(W)}
RstCmds == {[e |-> "rst", p |-> p, did |-> g] : p \in Senders, g \in Dids}
RotCmds == UNION {{[e |-> "rot", p |-> p, did |-> g, cid |-> x] :
                     x \in {Cid(n.k)} \cup (IF Creates(p, g) THEN {} ELSE {Current(Rec(W.P[p], p, g)).cid})} : p \in Senders, g \in Dids}

Sensible(c) ==
    CASE c.e = "skd" -> Creates(c.p, c.did) => n.k < MaxKeysMade
      [] c.e = "enc" -> Len(W.msgs) + c.n <= MaxMsgs
      [] c.e = "rst" -> ~Creates(c.p, c.did)
      [] c.e \in {"prc", "dec"} -> c.p # c.r
      [] OTHER -> TRUE

Cmds ==
    {c \in (IF Len(W.dists) < MaxDists THEN DistCmds ELSE {})
       \cup EncCmds
       \cup (IF n.p < MaxProc THEN ProcCmds ELSE {})
       \cup (IF n.d < MaxDec THEN DecCmds ELSE {})
       \cup (IF n.r < MaxReset THEN RstCmds \cup (IF n.k < MaxKeysMade THEN RotCmds ELSE {}) ELSE {}) : Sensible(c)}

Count(c) ==
    CASE c.e = "skd" -> IF Creates(c.p, c.did) THEN [n EXCEPT !.k = @ + 1] ELSE n
      [] c.e = "prc" -> [n EXCEPT !.p = @ + 1]
      [] c.e = "dec" -> [n EXCEPT !.d = @ + 1]
      [] c.e = "rst" -> [n EXCEPT !.r = @ + 1]
      [] c.e = "rot" -> [n EXCEPT !.r = @ + 1, !.k = @ + 1]
      [] OTHER -> n

Do(c) == LET a == Apply(W, c) IN W' = a.W /\ n' = IF a.exp = {"ok"} THEN Count(c) ELSE n
Dist == \E c \in Cmds : c.e = "skd" /\ Do(c)
Proc == \E c \in Cmds : c.e = "prc" /\ Do(c)
Enc == \E c \in Cmds : c.e = "enc" /\ Do(c)
Dec == \E c \in Cmds : c.e = "dec" /\ Do(c)
Rst == \E c \in Cmds : c.e = "rst" /\ Do(c)
Rot == \E c \in Cmds : c.e = "rot" /\ Do(c)
Next == Dist \/ Proc \/ Enc \/ Dec \/ Rst \/ Rot
Spec == Init /\ [][Next]_vars

----------------------------------------------------------------------------
InvAtMostOnce == AtMostOnce(W)
InvKeysUnique == KeysUnique(W)
InvBounded == Bounded(W)
InvPastSafe == PastSafe(W)
InvSentSafe == SentSafe(W)
InvOnlyOwnerSigns == OnlyOwnerSigns(W)

\* the state at p for the sender key of m under address r
StateFor(p, r, m) == {s \in HeldBy(W.P[p], r) : s.cid = m.cid /\ s.sk = m.sk /\ s.seed = m.seed}
Honest == DMuts = {}

\* C12: a message not delivered yet and within the windows decrypts.  The
\* windows are judged by where the member stands, not by its skipped keys.
InvDelivery ==
    \A p \in Addrs, m \in Mids(W) :
        LET x == W.msgs[m]
        IN  \A s \in StateFor(p, x.from, x) :
            (/\ Times(W, p, x.from, m) = 0 /\ p # x.from /\ Honest /\ x.it >= s.join
             /\ IF x.it < s.it THEN s.it - x.it <= MaxKeys ELSE x.it - s.it <= MaxJumps)
            => Decrypt(W.P[p], x.from, x).res = {"ok"}

\* C13: what was delivered, or is from before the start, is a duplicate
InvDuplicate ==
    \A p \in Addrs, m \in Mids(W) :
        LET x == W.msgs[m]
        IN  \A s \in StateFor(p, x.from, x) :
            (Times(W, p, x.from, m) > 0 \/ (p # x.from /\ Honest /\ x.it < s.join))
            => Decrypt(W.P[p], x.from, x).res = {"dup"}

\* C13: states never go back while their sender key is held
NoRewind ==
    [][\A p \in Addrs : \A k \in DOMAIN W.P[p].grp \cap DOMAIN W'.P[p].grp :
         \A i \in 1..Len(W.P[p].grp[k]) :
            LET s == W.P[p].grp[k][i]
                j == Find(W'.P[p].grp[k], s.cid, 1)
            IN  (j # 0 /\ W'.P[p].grp[k][j].sk = s.sk /\ ~(k[1] = p /\ n'.r # n.r)) =>
                  /\ W'.P[p].grp[k][j].it >= s.it
                  /\ W'.P[p].grp[k][j].seed = s.seed]_vars

\* C14: only messages signed with the key of a distribution processed for
\* that sender and group were delivered
InvAuthentic ==
    \A k \in DOMAIN W.dl :
        LET m == W.msgs[k[3]]
        IN  \E x \in 1..Len(W.dists) : W.dists[x].cid = m.cid /\ W.dists[x].seed = m.seed
\* C25: once a sender has made a new key and given it to others, a member (or
\* what is left of the old key anywhere) reveals nothing of what follows
InvRekeyHeals ==
    \A p \in Senders, g \in Dids, how \in {"rst", "rot"} : ~Creates(p, g) =>
        LET a == IF how = "rst" THEN Apply(W, [e |-> "rst", p |-> p, did |-> g]).W
                 ELSE Apply(W, [e |-> "rot", p |-> p, did |-> g, cid |-> "999"]).W
            b == Apply(a, [e |-> "skd", p |-> p, did |-> g, cid |-> "999"]).W
            c == Apply(b, [e |-> "enc", p |-> p, did |-> g, n |-> 1, keep |-> <<0>>, body |-> Len(W.msgs) + 1]).W
        IN  /\ Len(c.msgs) = Len(W.msgs) + 1
            /\ \A q \in Addrs : ~Derivable(W.P[q], c.msgs[Len(c.msgs)])

\* Every command, in every state: what is refused changes nothing; what is
\* decrypted is unchanged and signed with the key of a state held for its
\* sender and chain; others, and other groups, are not touched.
InvCommands ==
    \A c \in Cmds :
        LET a == Apply(W, c)
        IN  IF "ok" \notin a.exp THEN a.W = W
            ELSE /\ \A q \in Addrs \ {c.p} : a.W.P[q] = W.P[q]
                 /\ c.e = "dec" =>
                      LET m == Delivered(W, c)
                      IN  /\ m.ok /\ m.it >= 0
                          /\ \E s \in HeldBy(W.P[c.p], c.r) : s.cid = m.cid /\ s.sk = m.sk /\ s.seed = m.seed
                          /\ \A k \in DOMAIN W.P[c.p].grp \ {<<c.r, m.did>>} : a.W.P[c.p].grp[k] = W.P[c.p].grp[k]
=============================================================================
