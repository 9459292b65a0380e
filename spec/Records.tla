------------------------------ MODULE Records ------------------------------
(***************************************************************************)
(* What the library's records hold, as their public interface shows it.    *)
(*                                                                         *)
(* A session record is a current session state (or none) and the archived  *)
(* ones, oldest first.  A group record is a sequence of sender key states, *)
(* the one added last at the end.  Keys, counters and IDs are opaque.      *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

CONSTANTS MaxArchived, MaxChains, MaxKeys, MaxStates

None == <<>>
Some(x) == <<x>>
Last(s) == s[Len(s)]
Without(s, i) == SubSeq(s, 1, i - 1) \o SubSeq(s, i + 1, Len(s))
\* The last n of s
Newest(s, n) == IF Len(s) > n THEN SubSeq(s, Len(s) - n + 1, Len(s)) ELSE s
IndexOf(s, P(_)) == IF \E i \in 1..Len(s) : P(s[i]) THEN CHOOSE i \in 1..Len(s) : P(s[i]) /\ \A j \in 1..(i - 1) : ~P(s[j]) ELSE 0
Keep(s, P(_)) == SelectSeq(s, P)

----------------------------------------------------------------------------
\* Session states
NewState(base, lid, rid) ==
    [base |-> base, ver |-> "3", lid |-> lid, rid |-> rid, prev |-> "0", root |-> "", lreg |-> "0", rreg |-> "0", snd |-> None, rcv |-> <<>>, pend |-> None]

Chain(st, k) == IndexOf(st.rcv, LAMBDA x : x.k = k)

\* c: a change to a state. Gives whether it is possible, the state
\* afterwards, and what was asked for.
Change(st, c) ==
    LET fine(s) == [ok |-> TRUE, st |-> s, val |-> None]
        no == [ok |-> FALSE, st |-> st, val |-> None]
        at == IF c.op \in {"rck", "smk", "mk", "qck"} THEN Chain(st, c.k) ELSE 0
    IN  CASE c.op = "base" -> fine([st EXCEPT !.base = c.x])
          [] c.op = "prev" -> fine([st EXCEPT !.prev = c.x])
          [] c.op = "root" -> fine([st EXCEPT !.root = c.x])
          [] c.op = "lreg" -> fine([st EXCEPT !.lreg = c.x])
          [] c.op = "rreg" -> fine([st EXCEPT !.rreg = c.x])
          [] c.op = "snd" -> fine([st EXCEPT !.snd = Some([k |-> c.k, ck |-> c.ck])])
          [] c.op = "sck" -> IF st.snd = None THEN no ELSE fine([st EXCEPT !.snd = Some([@[1] EXCEPT !.ck = c.ck])])
          [] c.op = "pend" -> fine([st EXCEPT !.pend = Some([opk |-> c.opk, spk |-> c.spk, base |-> c.x])])
          [] c.op = "ack" -> fine([st EXCEPT !.pend = None])
          \* a receiving chain: only the newest are kept
          [] c.op = "rcv" -> fine([st EXCEPT !.rcv = Newest(Append(@, [k |-> c.k, ck |-> c.ck, mks |-> <<>>]), MaxChains)])
          [] c.op = "rck" -> IF at = 0 THEN no ELSE fine([st EXCEPT !.rcv[at].ck = c.ck])
          \* skipped keys: only the newest are kept
          [] c.op = "smk" -> IF at = 0 THEN no ELSE fine([st EXCEPT !.rcv[at].mks = Newest(@ \o c.xs, MaxKeys)])
          \* taking a key
          [] c.op = "mk" ->
                IF at = 0 THEN fine(st)
                ELSE LET i == IndexOf(st.rcv[at].mks, LAMBDA x : x = c.x)
                     IN  IF i = 0 THEN fine(st)
                         ELSE [ok |-> TRUE, st |-> [st EXCEPT !.rcv[at].mks = Without(@, i)], val |-> Some(c.x)]
          [] c.op = "qck" -> IF at = 0 THEN fine(st) ELSE [ok |-> TRUE, st |-> st, val |-> Some(st.rcv[at].ck)]

\* Session records
NewRecord == [cur |-> None, old |-> <<>>]
Archive(r) == IF r.cur = None THEN r ELSE [cur |-> None, old |-> Newest(r.old \o r.cur, MaxArchived)]
Promote(r, st) == [Archive(r) EXCEPT !.cur = Some(st)]
PromoteOld(r, i, st) == IF i \in 1..Len(r.old) THEN Promote([r EXCEPT !.old = Without(@, i)], st) ELSE r
HasState(r, ver, base) == \E x \in {r.cur[i] : i \in 1..Len(r.cur)} \cup {r.old[i] : i \in 1..Len(r.old)} : x.ver = ver /\ x.base = base

\* What a record tells about its current state
Answers(r) ==
    [i \in DOMAIN r.cur |->
        LET st == r.cur[i]
        IN  [ver |-> st.ver, lid |-> st.lid, rid |-> st.rid,
             sck |-> [j \in DOMAIN st.snd |-> st.snd[j].ck], rck |-> [j \in DOMAIN st.rcv |-> st.rcv[j].ck]]]

----------------------------------------------------------------------------
\* Group records
NewGroupState(cid, sk, priv, seed, it) == [cid |-> cid, sk |-> sk, priv |-> priv, seed |-> seed, it |-> it, mks |-> <<>>]
ForChain(g, cid) == IndexOf(g, LAMBDA x : x.cid = cid)
\* The state with that chain and signing key is kept if there is one, and is
\* now the newest; nothing else has that chain.
AddState(g, s) ==
    LET i == IndexOf(g, LAMBDA x : x.cid = s.cid /\ x.sk = s.sk)
        kept == IF i = 0 THEN s ELSE g[i]
    IN  Newest(Append(Keep(g, LAMBDA x : x.cid # s.cid), kept), MaxStates)

GroupChange(g, c) ==
    LET fine(s) == [ok |-> TRUE, g |-> s, val |-> None]
        at == ForChain(g, c.cid)
    IN  CASE c.op = "add" -> fine(AddState(g, NewGroupState(c.cid, c.sk, c.priv, c.seed, c.it)))
          [] c.op = "ck" -> IF at = 0 THEN fine(g) ELSE fine([g EXCEPT ![at].seed = c.seed, ![at].it = c.it])
          [] c.op = "smk" -> IF at = 0 THEN fine(g) ELSE fine([g EXCEPT ![at].mks = Newest(@ \o c.xs, MaxKeys)])
          [] c.op = "mk" ->
                LET i == IF at = 0 THEN 0 ELSE IndexOf(g[at].mks, LAMBDA x : x = c.x)
                IN  IF i = 0 THEN fine(g) ELSE [ok |-> TRUE, g |-> [g EXCEPT ![at].mks = Without(@, i)], val |-> Some(c.x)]
          [] c.op = "rm" ->
                LET i == IndexOf(g, LAMBDA x : x.cid = c.cid /\ x.sk = c.sk)
                IN  IF i = 0 THEN fine(g) ELSE [ok |-> TRUE, g |-> Without(g, i), val |-> Some(c.sk)]
          [] c.op = "rmall" ->
                [ok |-> TRUE, g |-> Keep(g, LAMBDA x : x.cid # c.cid), val |-> Some(ToString(Len(Keep(g, LAMBDA x : x.cid = c.cid))))]
=============================================================================
