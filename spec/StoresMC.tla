------------------------------ MODULE StoresMC ------------------------------
(* Stores within small bounds: every sequence of commands of up to MaxLen.  *)
EXTENDS Stores

CONSTANTS Kind,         \* which commands: "sessions", "groups", "keys", "states", "records", "senders"
          NS, Keys, Vals, Handles, MaxLen

VARIABLES W, n,
          last,         \* <<store, map, key>> -> what was stored last, while it should be there
          arch,         \* record -> everything archived since it was made or loaded, or an archived state was taken
          fresh         \* record -> sender key states added, in order, without those replaced
vars == <<W, n, last, arch, fresh>>

Stores == 1..NS

SessCmds ==
    [e : {"sload", "sstore"}, s : Stores, k : Keys, h : Handles]
    \cup [e : {"new"}, h : Handles, x : {Some(v) : v \in Vals}, lid : {"k1"}, rid : {"k2"}]
    \cup [e : {"chg"}, h : Handles, op : {"base"}, x : Vals]
    \cup [e : {"arch"}, h : Handles]
GrpCmds ==
    [e : {"gload", "gstore"}, s : Stores, k : Keys, h : Handles]
    \cup [e : {"gnew"}, h : Handles]
    \cup [e : {"gchg"}, h : Handles, op : {"add"}, cid : {"1", "2"}, sk : {"k1"}, priv : {FALSE}, seed : {"s1"}, it : {"0"}]
    \cup [e : {"gchg"}, h : Handles, op : {"ck"}, cid : {"1"}, seed : {"s2"}, it : {"5"}]
KeyCmds ==
    [e : {"pload", "pdel", "nload"}, s : Stores, k : Keys] \cup [e : {"pstore", "nstore"}, s : Stores, k : Keys, x : Vals]
IdCmds ==
    [e : {"iload"}, s : Stores, k : Keys] \cup [e : {"istore"}, s : Stores, k : Keys, x : Vals]
    \cup [e : {"itrust"}, s : Stores, k : Keys, x : Vals, dir : {"in", "out"}]
    \cup [e : {"iclear", "kp", "reg"}, s : Stores]
StateCmds ==
    LET chg(op) == [e |-> "chg", h |-> "h1", op |-> op]
    IN  {[e |-> "new", h |-> "h1", x |-> Some("b1"), lid |-> "k1", rid |-> "k2"]}
        \cup {chg("rcv") @@ [k |-> v, ck |-> <<"c1", "0">>] : v \in Vals}
        \cup {chg("rck") @@ [k |-> v, ck |-> <<"c2", "1">>] : v \in Vals}
        \cup {chg("qck") @@ [k |-> v] : v \in Vals}
        \cup {chg("smk") @@ [k |-> v, xs |-> <<x>>] : v \in Vals, x \in {"0", "1", "2"}}
        \cup {chg("mk") @@ [k |-> v, x |-> x] : v \in Vals, x \in {"0", "1", "2"}}
        \cup {chg("snd") @@ [k |-> "k9", ck |-> <<"c1", "0">>], chg("sck") @@ [ck |-> <<"c2", "1">>],
              chg("pend") @@ [opk |-> Some("7"), spk |-> "8", x |-> "b2"], chg("pend") @@ [opk |-> None, spk |-> "8", x |-> "b2"], chg("ack")}
RecCmds ==
    {[e |-> "new", h |-> "h1", x |-> None, lid |-> "k1", rid |-> "k2"]}
    \cup {[e |-> e, h |-> "h1", x |-> v, lid |-> "k1", rid |-> "k2"] : e \in {"promo"}, v \in Vals}
    \cup {[e |-> "set", h |-> "h1", x |-> v, lid |-> "k1", rid |-> "k2"] : v \in {None} \cup {Some(y) : y \in Vals}}
    \cup {[e |-> "arch", h |-> "h1"]} \cup {[e |-> "old", h |-> "h1", i |-> i] : i \in 0..(MaxArchived + 1)}
    \cup {[e |-> "has", h |-> "h1", ver |-> r, x |-> v] : r \in {"3", "4"}, v \in Vals}
SenderCmds ==
    LET chg(op, cid) == [e |-> "gchg", h |-> "h1", op |-> op, cid |-> cid]
    IN  {[e |-> "gnew", h |-> "h1"], [e |-> "glook", h |-> "h1"]}
        \cup {chg("add", cid) @@ [sk |-> sk, priv |-> FALSE, seed |-> "s1", it |-> "0"] : cid \in Vals, sk \in {"k1", "k2"}}
        \cup {chg("ck", cid) @@ [seed |-> "s2", it |-> "1"] : cid \in Vals}
        \cup {chg("rm", cid) @@ [sk |-> sk] : cid \in Vals, sk \in {"k1", "k2"}}
        \cup {chg("rmall", cid) : cid \in Vals}
        \cup {chg("smk", cid) @@ [xs |-> <<x>>] : cid \in Vals, x \in {"0"}}
        \cup {chg("mk", cid) @@ [x |-> x] : cid \in Vals, x \in {"0"}}

All == CASE Kind = "sessions" -> SessCmds [] Kind = "groups" -> GrpCmds [] Kind = "keys" -> KeyCmds [] Kind = "ids" -> IdCmds
         [] Kind = "states" -> StateCmds [] Kind = "records" -> RecCmds [] Kind = "senders" -> SenderCmds

\* What a caller may do: change only records it has not given away, and use
\* only those it has; keys and chains are added once.
HasSt(c) == c.h \in DOMAIN W.H /\ W.H[c.h].cur # None
Sensible(c) ==
    CASE c.e \in {"sstore", "look", "has"} -> c.h \in DOMAIN W.H
      [] c.e \in {"gstore", "glook"} -> c.h \in DOMAIN W.G
      [] c.e = "chg" -> HasSt(c) /\ c.h \notin W.given
                        /\ (c.op = "rcv" => Chain(W.H[c.h].cur[1], c.k) = 0)
                        /\ (c.op = "sck" => W.H[c.h].cur[1].snd # None)
                        /\ (c.op = "smk" => LET st == W.H[c.h].cur[1] IN Chain(st, c.k) = 0 \/ \A i \in DOMAIN st.rcv[Chain(st, c.k)].mks : st.rcv[Chain(st, c.k)].mks[i] # c.xs[1])
      [] c.e \in {"arch", "promo", "set", "old"} -> c.h \in DOMAIN W.H /\ c.h \notin W.given
      [] c.e = "gchg" -> c.h \in DOMAIN W.G /\ c.h \notin W.given
                        /\ (c.op = "smk" /\ ForChain(W.G[c.h], c.cid) # 0 => W.G[c.h][ForChain(W.G[c.h], c.cid)].mks = <<>>)
                        /\ (c.op = "ck" => ForChain(W.G[c.h], c.cid) # 0)
      [] OTHER -> TRUE
Cmds == {c \in All : Sensible(c)}

Init == /\ W = [S |-> [i \in Stores |-> NewStore("k" \o ToString(i), ToString(i))], H |-> <<>>, G |-> <<>>, given |-> {}]
        /\ n = 0 /\ last = <<>> /\ arch = <<>> /\ fresh = <<>>

Ghost(c) ==
    /\ last' = CASE c.e = "sstore" -> Put(last, <<c.s, "sess", c.k>>, W.H[c.h])
                 [] c.e = "gstore" -> Put(last, <<c.s, "grp", c.k>>, W.G[c.h])
                 [] c.e \in {"pstore", "nstore", "istore"} -> Put(last, <<c.s, MapOf(c.e), c.k>>, c.x)
                 [] c.e = "pdel" -> Drop(last, <<c.s, "pre", c.k>>)
                 [] c.e = "iclear" -> [x \in {y \in DOMAIN last : ~(y[1] = c.s /\ y[2] = "ids")} |-> last[x]]
                 [] OTHER -> last
    /\ arch' = CASE c.e \in {"new"} -> Put(arch, c.h, <<>>)
                 [] c.e \in {"arch", "promo"} -> Put(arch, c.h, Get(arch, c.h)[1] \o W.H[c.h].cur)
                 [] c.e = "old" -> Put(arch, c.h, W'.H[c.h].old)
                 [] c.e = "sload" /\ Get(W.S[c.s].sess, c.k) # None -> Put(arch, c.h, W.S[c.s].sess[c.k].old)
                 [] OTHER -> arch
    /\ fresh' = CASE c.e = "gnew" -> Put(fresh, c.h, <<>>)
                  [] c.e = "gchg" /\ c.op = "add" -> Put(fresh, c.h, Append(Keep(fresh[c.h], LAMBDA x : x # c.cid), c.cid))
                  [] c.e = "gchg" /\ c.op \in {"rm", "rmall"} ->
                        Put(fresh, c.h, Keep(fresh[c.h], LAMBDA x : ForChain(W'.G[c.h], x) # 0))
                  [] c.e = "gload" /\ Get(W.S[c.s].grp, c.k) # None -> Put(fresh, c.h, [i \in DOMAIN W.S[c.s].grp[c.k] |-> W.S[c.s].grp[c.k][i].cid])
                  [] OTHER -> fresh

Do(c) == /\ n < MaxLen
         /\ W' = Step(W, c).W
         /\ n' = n + 1
         /\ Ghost(c)
Next == \E c \in Cmds : Do(c)
Spec == Init /\ [][Next]_vars

----------------------------------------------------------------------------
\* A store holds what was stored last and not deleted or cleared since
InvMap ==
    \A s \in Stores, m \in {"sess", "grp", "pre", "sgn", "ids"} :
        /\ {<<s, m, k>> : k \in DOMAIN W.S[s][m]} = {x \in DOMAIN last : x[1] = s /\ x[2] = m}
        /\ \A k \in DOMAIN W.S[s][m] : W.S[s][m][k] = last[<<s, m, k>>]
\* The archived states are the newest ones archived
InvArchive == \A h \in DOMAIN arch : W.H[h].old = Newest(arch[h], MaxArchived)
\* Sender key states: each chain once, those added last
InvSenders == \A h \in DOMAIN fresh : [i \in DOMAIN W.G[h] |-> W.G[h][i].cid] = Newest(fresh[h], MaxStates)
InvBounded ==
    /\ \A h \in DOMAIN W.H : /\ Len(W.H[h].old) <= MaxArchived
                             /\ W.H[h].cur # None => /\ Len(W.H[h].cur[1].rcv) <= MaxChains
                                                     /\ \A i \in DOMAIN W.H[h].cur[1].rcv : Len(W.H[h].cur[1].rcv[i].mks) <= MaxKeys
    /\ \A h \in DOMAIN W.G : Len(W.G[h]) <= MaxStates /\ \A i \in DOMAIN W.G[h] : Len(W.G[h][i].mks) <= MaxKeys
\* Identities: what is trusted, and when a replacement is reported
InvIds ==
    Kind = "ids" => \A s \in Stores, k \in Keys, x \in Vals :
        LET trusted == Step(W, [e |-> "itrust", s |-> s, k |-> k, x |-> x, dir |-> "in"]).val[1]
            replaces == Step(W, [e |-> "istore", s |-> s, k |-> k, x |-> x]).val[1]
            known == <<s, "ids", k>> \in DOMAIN last
        IN  (trusted = (known => last[<<s, "ids", k>>] = x)) /\ (replaces = ~trusted)
\* A key taken is gone
InvTaken ==
    Kind = "states" => \A h \in DOMAIN W.H : \A k \in Vals, x \in {"0", "1", "2"} :
        HasSt([h |-> h]) =>
            LET c == [e |-> "chg", h |-> h, op |-> "mk", k |-> k, x |-> x]
                o == Step(W, c)
            IN  Step(o.W, c).val = None
\* Only what a command is about changes
InvFrame ==
    \A c \in Cmds : LET V == Step(W, c).W
       IN  /\ \A h \in DOMAIN W.H : V.H[h] # W.H[h] => c.h = h
           /\ \A h \in DOMAIN W.G : V.G[h] # W.G[h] => c.h = h
           /\ \A s \in Stores, m \in {"sess", "grp", "pre", "sgn", "ids"}, k \in Keys :
                Get(V.S[s][m], k) # Get(W.S[s][m], k) => <<s, m, k>> \in Target(W, c)
=============================================================================
