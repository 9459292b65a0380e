----------------------------- MODULE GroupTrace -----------------------------
(* Checks histories of group messaging recorded from the library against   *)
(* Group; see SessionTrace.                                                *)
EXTENDS Group, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES l, W, nm, cx, skip, cov
vars == <<l, W, nm, cx, skip, cov>>

Has(c, f) == f \in DOMAIN c
Fld(c, f, dflt) == IF Has(c, f) THEN c[f] ELSE dflt
Elems(s) == {s[i] : i \in 1..Len(s)}
Vals(f) == {f[x] : x \in DOMAIN f}

\* Labels of byte strings must correspond one to one to what they stand for.
RECURSIVE Learn(_, _)
Learn(m, pairs) ==
    IF pairs = <<>> THEN [ok |-> TRUE, nm |-> m]
    ELSE LET lab == pairs[1][1]
             key == pairs[1][2]
         IN  IF lab \in DOMAIN m
             THEN IF m[lab] = key THEN Learn(m, Tail(pairs)) ELSE [ok |-> FALSE, nm |-> m]
             ELSE IF key \in Vals(m) THEN [ok |-> FALSE, nm |-> m]
             ELSE Learn(Put(m, lab, key), Tail(pairs))

Fired(c) == Fld(c, "fired", FALSE)

----------------------------------------------------------------------------
\* What can be seen of a party: for each sender and group, the chain ids held
\* with their iterations.
StatesSeen(rec) == {<<rec[i].cid, rec[i].it>> : i \in 1..Len(rec)}
ViewDev(P, v) ==
    LET seen == {<<v[i].r, v[i].did>> : i \in 1..Len(v)}
        recs == {<<<<v[i].r, v[i].did>>, {<<v[i].s[j][1], v[i].s[j][2]>> : j \in 1..Len(v[i].s)}>> : i \in 1..Len(v)}
        should == {<<k, StatesSeen(P.grp[k])>> : k \in DOMAIN P.grp}
        chains(R) == {<<x[1], {y[1] : y \in x[2]}>> : x \in R}
        tops == {<<<<v[i].r, v[i].did>>, v[i].first>> : i \in 1..Len(v)}
        current == {<<k, Current(P.grp[k]).cid>> : k \in DOMAIN P.grp}
    IN  (IF chains(recs) # chains(should) THEN {"chains"} ELSE (IF recs # should THEN {"position"} ELSE {}) \cup (IF tops # current THEN {"current"} ELSE {}))

\* A distribution
DistDev(x, c, names) ==
    LET a == Learn(names, <<<<c.ckl, <<"ck", x.seed, x.off>>>>, <<c.skl, <<"sk", x.sk>>>>>>)
    IN  [nm |-> a.nm,
         dev |-> (IF c.cid # x.cid THEN {"chainid"} ELSE {})
            \cup (IF c.it # x.it THEN {"distit"} ELSE {})
            \cup (IF c.odid # x.did THEN {"group"} ELSE {})
            \cup (IF ~a.ok THEN {"distkey"} ELSE {})
            \cup (IF c.ver # 51 THEN {"version"} ELSE {})
            \cup (IF ~c.rt THEN {"roundtrip"} ELSE {})]

\* Messages
RECURSIVE MsgsDev(_, _)
MsgsDev(ms, os) ==
    IF ms = <<>> THEN {}
    ELSE LET m == ms[1]
             o == os[1]
         IN  (IF o.cid # m.cid THEN {"chainid"} ELSE {})
             \cup (IF o.it # m.it THEN {"iteration"} ELSE {})
             \cup (IF o.did # m.did THEN {"group"} ELSE {})
             \cup (IF o.ver # 51 THEN {"version"} ELSE {})
             \cup (IF ~o.rt THEN {"roundtrip"} ELSE {})
             \cup (IF ~o.clen THEN {"length"} ELSE {})
             \cup (IF ~o.signed THEN {"unsigned"} ELSE {})
             \cup MsgsDev(Tail(ms), Tail(os))

ResDev(c, o) ==
    LET garbled == c.e \in {"dec", "prb"} /\ Has(c.d, "ok")
    IN  IF Fired(c)
        THEN IF c.res = "ok" THEN {"faultok"} ELSE IF c.res = "panic" THEN {"panic"} ELSE {}
        ELSE IF c.res = "panic" THEN {"panic"}
        ELSE IF o.res = {"ok"} THEN (IF c.res = "ok" THEN {} ELSE {"refused"})
        ELSE IF o.tag = "mix" THEN {}
        ELSE IF c.res = "ok" THEN {"accepted"}
        ELSE IF c.res \in o.res \/ garbled THEN {}
        ELSE {"class"}

StillDev(c) ==
    (IF c.oth THEN {"other"} ELSE {}) \cup (IF c.buf THEN {} ELSE {"buffer"}) \cup (IF Has(c, "leak") THEN {"leak"} ELSE {})

OpStep(c) ==
    LET o == Outcome(W, c)
        good == o.res = {"ok"}
        done == c.res = "ok"
        W1 == IF ~good THEN W
              ELSE IF done THEN Commit(W, c, o, o.w, TRUE)
              ELSE IF Fired(c) THEN Commit(W, c, o, c.w, FALSE)
              ELSE W
        res == ResDev(c, o)
        new == SubSeq(W1.msgs, Len(W.msgs) + 1, Len(W1.msgs))
        dist == IF c.e = "skd" /\ done /\ good THEN DistDev(W1.dists[Len(W1.dists)], c, nm) ELSE [nm |-> nm, dev |-> {}]
    IN  [exp |-> o.res, tag |-> o.tag, W |-> W1, nm |-> dist.nm,
         lost |-> o.tag = "mix" /\ done,
         dev |-> res \cup StillDev(c)
            \cup (IF done /\ good /\ o.w # <<>> /\ ~InSeq("grp", c.w) THEN {"unsaved"} ELSE {})
            \cup (IF ~done /\ c.chg /\ (~Fired(c) \/ ~good) THEN {"changed"} ELSE {})
            \cup (IF res = {} /\ ~(o.tag = "mix" /\ done) THEN ViewDev(W1.P[c.p], c.v) ELSE {})
            \cup dist.dev
            \cup (IF c.e = "enc" /\ done /\ good THEN MsgsDev(new, c.o) ELSE {})
            \cup (IF c.e = "enc" /\ done /\ ~c.uniq THEN {"keyreuse"} ELSE {})
            \cup (IF c.e = "enc" /\ done /\ ~c.seq THEN {"iteration"} ELSE {})
            \cup (IF c.e = "dec" /\ done /\ good /\ c.body # W.msgs[c.m].body THEN {"plaintext"} ELSE {})]

ProbeStep(c) ==
    LET o == Outcome(W, [c EXCEPT !.e = "dec"])
        res == ResDev(c, o)
    IN  [exp |-> o.res, tag |-> o.tag, W |-> W, nm |-> nm, lost |-> FALSE,
         dev |-> res \cup StillDev(c) \cup (IF c.chg THEN {"changed"} ELSE {})
            \cup (IF res = {} /\ o.tag # "mix" /\ c.res = "ok" /\ c.body # W.msgs[c.m].body THEN {"plaintext"} ELSE {})]

ResetStep(c) ==
    LET w == Reset(W, c.p, c.did)
    IN  [exp |-> {"ok"}, tag |-> "", W |-> w, nm |-> nm, lost |-> FALSE, dev |-> ViewDev(w.P[c.p], c.v)]

\* An attacker has copied what c.p has stored; it could read c.broken and
\* sign under the keys of the messages c.signs.
Loot(c) == IF Has(c, "snap") THEN cx.snaps[c.snap] ELSE W.P[c.p]
StealStep(c) ==
    [exp |-> {"ok"}, tag |-> "", W |-> W, nm |-> nm, lost |-> FALSE,
     dev |-> (IF \E m \in Elems(c.broken) : ~Derivable(Loot(c), W.msgs[m]) THEN {"reveals"} ELSE {})
        \cup (IF \E m \in Elems(c.signs) : ~Signs(Loot(c), W.msgs[m].sk) THEN {"signs"} ELSE {})]

Step(c) ==
    CASE c.e \in {"skd", "rot", "prc", "enc", "dec"} -> OpStep(c)
      [] c.e = "prb" -> ProbeStep(c)
      [] c.e = "rst" -> ResetStep(c)
      [] c.e = "cmp" -> StealStep(c)
      [] c.e = "lft" -> [exp |-> {"ok"}, tag |-> "", W |-> Lift(W, c.p, c.did, c.by), nm |-> nm, lost |-> FALSE, dev |-> {}]
      [] c.e = "snp" -> [exp |-> {"ok"}, tag |-> "", W |-> W, nm |-> nm, lost |-> FALSE, dev |-> {}]

----------------------------------------------------------------------------
Props(dev, c, s) ==
    LET e == IF c.e = "prb" THEN "dec" ELSE c.e
        mangled == e = "dec" /\ DOMAIN c.d # {}
    IN
    (CASE dev = "refused" ->
             (CASE e = "dec" -> {"C12"} \cup (IF c.res = "dup" THEN {"C13"} ELSE {})
                                \cup (IF s.tag \in {"jump", "skip"} THEN {"C15"} ELSE {})
                [] OTHER -> {"C12"})
       [] dev = "accepted" ->
             (CASE e = "dec" -> (IF "dup" \in s.exp THEN {"C13"} ELSE {})
                                \cup (IF s.tag \in {"sig", "none"} THEN {"C14"} ELSE {})
                                \cup (IF s.tag \in {"far", "none"} THEN {"C15"} ELSE {})
                                \cup (IF mangled THEN {"C14"} ELSE {})
                [] OTHER -> {"C14"})
             \cup (IF e = "dec" /\ Times(W, c.p, c.r, c.m) > 0 THEN {"C13"} ELSE {})
       [] dev = "class" -> {"C13"}
       [] dev = "panic" -> {"C18"} \cup (IF e = "dec" THEN {"C14", "C12"} \cup (IF s.tag = "far" THEN {"C15"} ELSE {}) ELSE {"C12"})
       [] dev = "faultok" -> {"C17"}
       [] dev = "unsaved" -> {"C17"} \cup (CASE e = "dec" -> {"C13", "C25"} [] e = "enc" -> {"C08", "C25"} [] OTHER -> {})
       [] dev \in {"changed", "buffer"} -> {"C22"}
       [] dev = "leak" -> IF e = "dec" THEN {"C14", "C17"} ELSE {"C17"}
       [] dev = "other" -> {"C16"}
       [] dev = "chains" -> {"C15"} \cup (IF e = "dec" THEN {"C12"} ELSE {})
       [] dev = "position" -> {"C13"} \cup (IF e = "enc" THEN {"C08"} ELSE {})
       [] dev = "current" -> {"C15", "C25"}
       [] dev = "iteration" -> {"C12", "C08"}
       [] dev = "keyreuse" -> {"C08"}
       [] dev = "unsigned" -> {"C14"}
       [] dev = "chainid" -> {"C12", "C18"}
       [] dev = "group" -> {"C14", "C18"}
       [] dev \in {"distit", "distkey"} -> {"C12", "C25"}
       [] dev = "version" -> {"C18", "C23"}
       [] dev = "roundtrip" -> {"C18"}
       [] dev = "length" -> {"C26"}
       [] dev = "plaintext" -> {"C12", "C14"}
       [] dev \in {"reveals", "signs"} -> {"C25"})
    \cup (CASE cx.focus = "C15" /\ dev \in {"refused", "panic", "accepted", "class", "plaintext", "chains", "position"} -> {"C15"}
            [] cx.focus = "C13" /\ dev \in {"position", "chains"} -> {"C13"}
            [] cx.focus = "C16" /\ dev \in {"refused", "panic", "accepted", "chains", "position"} -> {"C16"}
            [] OTHER -> {})
    \cup (IF cx.faulty \/ Fired(c) THEN {"C17"} ELSE {})

----------------------------------------------------------------------------
Init0 == /\ l = 1 /\ W = World({}) /\ nm = <<>> /\ skip = TRUE /\ cov = <<>>
         /\ cx = [h |-> 0, focus |-> "", faulty |-> FALSE, snaps |-> <<>>, nd |-> 0]

Begin(c) ==
    /\ W' = World(Elems(c.ps)) /\ nm' = <<>> /\ skip' = FALSE
    /\ cx' = [h |-> cx.h + 1, focus |-> Fld(c, "focus", ""), faulty |-> Has(c, "dribble"), snaps |-> <<>>, nd |-> 0]

Add(f, k, n) == Put(f, k, IF k \in DOMAIN f THEN f[k] + n ELSE n)
Tally(c, s) ==
    IF c.e = "cmp"
    THEN Add(Add(Add(cov, "gcmp/read", Len(c.broken)), "gcmp/derivable",
                 Cardinality({m \in Mids(W) : Derivable(Loot(c), W.msgs[m])})), "gcmp/messages", Len(W.msgs))
    ELSE Add(cov, "g" \o c.e \o "/" \o s.tag \o "/" \o (IF Fired(c) THEN "fault" ELSE Fld(c, "res", "")), 1)

\* For C23: the keys of all messages made so far, for evaluation.
LastOf(n) == n >= Len(Trace) \/ Trace[n + 1].e = "init"
Terms(w) ==
    IF "TERMS" \notin DOMAIN IOEnv THEN TRUE
    ELSE PrintT("TERM " \o ToJson([h |-> cx.h,
            dists |-> [d \in 1..Len(w.dists) |-> <<w.dists[d].seed, w.dists[d].off>>],
            msgs |-> [m \in Mids(w) |-> <<w.msgs[m].seed, w.msgs[m].off>>]]))

\* After a deviation the history goes on as the specification has it, so that
\* what follows from it is seen as well; not after these.
Fatal == {"accepted", "faultok"}

Consume ==
    /\ l <= Len(Trace)
    /\ l' = l + 1
    /\ LET c == Trace[l]
       IN  IF c.e = "init" THEN Begin(c) /\ UNCHANGED cov
           ELSE IF skip THEN UNCHANGED <<W, nm, cx, skip, cov>>
           ELSE LET s == Step(c)
                IN  /\ W' = s.W /\ nm' = s.nm
                    /\ cov' = Tally(c, s)
                    /\ cx' = [cx EXCEPT !.faulty = @ \/ Fired(c),
                                         !.snaps = IF c.e = "snp" THEN Append(@, W.P[c.p]) ELSE @,
                                         !.nd = IF s.dev = {} THEN @ ELSE @ + 1]
                    /\ IF s.dev # {} \/ s.lost \/ LastOf(l) THEN Terms(s.W) ELSE TRUE
                    /\ IF s.dev = {} THEN skip' = s.lost
                       ELSE /\ skip' = (s.lost \/ s.dev \cap Fatal # {} \/ cx.nd >= 5)
                            /\ PrintT("DEV " \o ToJson([line |-> l, h |-> cx.h, dev |-> s.dev,
                                  props |-> UNION {Props(d, c, s) : d \in s.dev},
                                  e |-> c.e, exp |-> s.exp, got |-> Fld(c, "res", ""), tag |-> s.tag]))

EndOfHistory == ~skip /\ cx.nd = 0 /\ (l > Len(Trace) \/ Trace[l].e = "init")
SoundOnce == EndOfHistory => AtMostOnce(W)
SoundKeys == EndOfHistory => KeysUnique(W)
SoundBounds == EndOfHistory => Bounded(W)
SoundSigns == EndOfHistory => OnlyOwnerSigns(W)

Finish == /\ l = Len(Trace) + 1
          /\ PrintT("END " \o ToJson([lines |-> Len(Trace), histories |-> cx.h, cov |-> cov]))
          /\ l' = l + 1
          /\ UNCHANGED <<W, nm, cx, skip, cov>>

Spec == Init0 /\ [][Consume \/ Finish]_vars
Seen == l
============================================================================
