---------------------------- MODULE SessionTrace ----------------------------
(***************************************************************************)
(* Checks histories recorded from the library against Session.  Every line *)
(* of the trace is a command with what the library answered and what could *)
(* be seen afterwards.  The command is applied to the world by Session's   *)
(* Apply / Outcome / Commit, and every observation is compared.  A         *)
(* deviation is printed with the properties it breaks, and the rest of     *)
(* that history is skipped, as it is no longer comparable.                 *)
(***************************************************************************)
EXTENDS Session, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES l,      \* next line
          W,      \* the world
          nm,     \* label of a public key seen in the trace -> key of the model
          cx,     \* context of the history: [h, focus, faulty, last]
          skip,   \* whether the rest of the history is skipped
          cov     \* how often each kind of step was taken

vars == <<l, W, nm, cx, skip, cov>>

Has(c, f) == f \in DOMAIN c
Fld(c, f, dflt) == IF Has(c, f) THEN c[f] ELSE dflt
Elems(s) == {s[i] : i \in 1..Len(s)}
Vals(f) == {f[x] : x \in DOMAIN f}

\* Labels must correspond one to one to keys of the model.
RECURSIVE Learn(_, _)
Learn(m, pairs) ==
    IF pairs = <<>> THEN [ok |-> TRUE, nm |-> m]
    ELSE LET lab == pairs[1][1]
             key == pairs[1][2]
         IN  IF lab \in DOMAIN m
             THEN IF m[lab] = key THEN Learn(m, Tail(pairs)) ELSE [ok |-> FALSE, nm |-> m]
             ELSE IF key \in Vals(m) THEN [ok |-> FALSE, nm |-> m]
             ELSE Learn(Put(m, lab, key), Tail(pairs))

RECURSIVE SetToSeq1(_)
SetToSeq1(S) == IF S = {} THEN <<>> ELSE LET x == CHOOSE x \in S : TRUE IN <<x>> \o SetToSeq1(S \ {x})

----------------------------------------------------------------------------
(* Observations.  Each operator yields a set of deviations.                *)

\* What can be seen of a party: pinned identities, one-time pre-keys left,
\* which addresses have a current session and how many archived ones.
ViewDev(P, v, m) ==
    LET idp == [r \in DOMAIN v.id |-> <<v.id[r], IF r \in DOMAIN P.ident THEN P.ident[r] ELSE -99>>]
        learnt == Learn(m, [i \in 1..Cardinality(DOMAIN v.id) |-> idp[SetToSeq1(DOMAIN v.id)[i]]])
    IN  [nm |-> learnt.nm,
         dev |-> (IF DOMAIN v.id = DOMAIN P.ident /\ learnt.ok THEN {} ELSE {"pinned"})
            \cup (IF Elems(v.opk) = DOMAIN P.opk THEN {} ELSE {"prekeys"})
            \cup (IF DOMAIN v.cur = DOMAIN P.sess /\ \A r \in DOMAIN P.sess : v.cur[r] = IsSome(P.sess[r].cur)
                  THEN {} ELSE {"current"})
            \cup (IF DOMAIN v.np = DOMAIN P.sess /\ \A r \in DOMAIN P.sess : v.np[r] = Len(P.sess[r].prev)
                  THEN {} ELSE {"archived"})]

\* What can be seen of a message.
MsgDev(m, o, names) ==
    LET head == Learn(names, <<<<o.rk, m.rk>>>>)
        env == IF m.typ = "pk" /\ o.typ = "pk"
               THEN Learn(head.nm, <<<<o.base, m.base>>, <<o.idk, m.idk>>>>)
               ELSE [ok |-> TRUE, nm |-> head.nm]
    IN  [nm |-> env.nm,
         dev |-> (IF o.typ # m.typ THEN {"type"} ELSE {})
            \cup (IF o.ctr # m.ctr THEN {"counter"} ELSE {})
            \cup (IF o.pc # m.pc THEN {"prevcounter"} ELSE {})
            \cup (IF ~head.ok \/ (m.typ = "pk" /\ o.typ = "pk" /\ o.base = o.rk) THEN {"ratchetkey"} ELSE {})
            \cup (IF o.ver # 51 THEN {"version"} ELSE {})
            \cup (IF ~o.rt THEN {"roundtrip"} ELSE {})
            \cup (IF ~o.clen THEN {"length"} ELSE {})
            \cup (IF m.typ = "pk" /\ o.typ = "pk"
                  THEN (IF env.ok /\ o.spk = m.spk /\ o.opk = m.opk /\ o.reg = m.reg THEN {} ELSE {"envelope"})
                       \cup (IF o.pver # 51 THEN {"version"} ELSE {})
                  ELSE {})]

RECURSIVE MsgsDev(_, _, _)
MsgsDev(ms, os, names) ==
    IF ms = <<>> THEN [nm |-> names, dev |-> {}]
    ELSE LET a == MsgDev(ms[1], os[1], names)
             b == MsgsDev(Tail(ms), Tail(os), a.nm)
         IN  [nm |-> b.nm, dev |-> a.dev \cup b.dev]

Fired(c) == Fld(c, "fired", FALSE)

\* The outcome itself.
ResDev(c, exp) ==
    LET garbled == c.e \in {"dec", "prb"} /\ Has(c.d, "ok")
    IN  IF Fired(c)
        THEN IF c.res = "ok" THEN (IF exp = {"ok"} /\ c.flt.mode = "rnd" THEN {} ELSE {"faultok"}) ELSE IF c.res = "panic" THEN {"panic"} ELSE {}
        ELSE IF c.res = "panic" THEN {"panic"}
        ELSE IF exp = {"ok"} THEN (IF c.res = "ok" THEN {} ELSE {"refused"})
        ELSE IF c.res = "ok" THEN {"accepted"}
        ELSE IF c.res \in exp \/ garbled THEN {}
        ELSE {"class"}

IndexOf(x, s) == LET I == {i \in 1..Len(s) : s[i] = x} IN IF I = {} THEN 0 ELSE CHOOSE i \in I : \A j \in I : i <= j

\* Order of writes: what is returned has been stored; a pre-key is not
\* gone before the session it served is stored.
WriteDev(c) ==
    (IF c.e \in {"bun", "enc", "dec"} /\ c.res = "ok" /\ ~InSeq("sess", c.w) THEN {"unsaved"} ELSE {})
    \cup (IF InSeq("opk", c.w) /\ (~InSeq("sess", c.w) \/ IndexOf("opk", c.w) < IndexOf("sess", c.w)) THEN {"order"} ELSE {})

StillDev(c) ==
    (IF c.oth THEN {"other"} ELSE {})
    \cup (IF c.buf THEN {} ELSE {"buffer"})
    \cup (IF Has(c, "leak") THEN {"leak"} ELSE {})
    \cup (IF Has(c, "same") /\ ~c.same THEN {"diverges"} ELSE {})

\* Everything about an operation: [dev, W, nm, tag, exp]
OpStep(c) ==
    LET o == Outcome(W, c)
        good == o.res = {"ok"}
        done == c.res = "ok"
        W1 == IF ~good THEN W
              ELSE IF done THEN Commit(W, c, o, o.w, TRUE)
              ELSE IF Fired(c) THEN Commit(W, c, o, c.w, FALSE)
              ELSE W
        res == ResDev(c, o.res)
        view == ViewDev(W1.P[c.p], c.v, nm)
        new == SubSeq(W1.msgs, Len(W.msgs) + 1, Len(W1.msgs))
        shown == IF c.e = "enc" /\ done /\ good THEN MsgsDev(new, c.o, view.nm) ELSE [nm |-> view.nm, dev |-> {}]
    IN  [exp |-> o.res, tag |-> o.tag, W |-> W1, nm |-> shown.nm,
         dev |-> res \cup WriteDev(c) \cup StillDev(c)
            \cup (IF ~done /\ c.chg /\ (~Fired(c) \/ ~good) THEN {"changed"} ELSE {})
            \cup (IF res = {} THEN view.dev \cup shown.dev ELSE {})
            \cup (IF c.e = "ppk" /\ done /\ good /\ c.used # (IF o.tag = "new" THEN Delivered(W, c).opk ELSE <<>>) THEN {"used"} ELSE {})
            \cup (IF c.e = "enc" /\ done /\ ~c.uniq THEN {"keyreuse"} ELSE {})
            \cup (IF c.e = "enc" /\ done /\ ~c.seq THEN {"counter"} ELSE {})
            \cup (IF c.e = "dec" /\ done /\ good /\ c.body # W.msgs[c.m].body THEN {"plaintext"} ELSE {})]

ProbeStep(c) ==
    LET o == Outcome(W, [c EXCEPT !.e = "dec"])
        res == ResDev(c, o.res)
    IN  [exp |-> o.res, tag |-> o.tag, W |-> W, nm |-> nm,
         dev |-> res \cup StillDev(c) \cup (IF c.chg THEN {"changed"} ELSE {})
            \cup (IF res = {} /\ c.res = "ok" /\ c.body # W.msgs[c.m].body THEN {"plaintext"} ELSE {})]

KeyStep(c) ==
    LET a == Apply(W, c)
        learnt == Learn(nm, <<<<c.lab, IF c.e = "spk" THEN a.W.allspk[<<c.p, c.id>>] ELSE a.W.allopk[<<c.p, c.id>>]>>>>)
    IN  [exp |-> {"ok"}, tag |-> "", W |-> a.W, nm |-> learnt.nm, dev |-> IF learnt.ok THEN {} ELSE {"keygen"}]

IniStep(c) ==
    LET a == Apply(W, c)
        learnt == Learn(nm, <<<<c.lab, W.nk>>>>)
        one == ViewDev(a.W.P[c.p], c.v, learnt.nm)
        two == ViewDev(a.W.P[c.r], c.v2, one.nm)
    IN  [exp |-> {"ok"}, tag |-> "", W |-> a.W, nm |-> two.nm,
         dev |-> (IF c.res = "ok" THEN {} ELSE {"refused"}) \cup (IF learnt.ok THEN {} ELSE {"keygen"}) \cup one.dev \cup two.dev]

AppStep(c) ==
    LET a == Apply(W, c)
        view == ViewDev(a.W.P[c.p], c.v, nm)
    IN  [exp |-> {"ok"}, tag |-> "", W |-> a.W, nm |-> view.nm,
         dev |-> (IF c.res = "ok" THEN {} ELSE {"refused"}) \cup view.dev
                 \cup (IF c.e # "clr" /\ c.oth THEN {"other"} ELSE {})]

\* An attacker has copied what c.p has stored, and could read c.broken.
\* With snap, the state was copied earlier.
Loot(c) == IF Has(c, "snap") THEN cx.snaps[c.snap] ELSE W.P[c.p]
StealStep(c) ==
    [exp |-> {"ok"}, tag |-> "", W |-> W, nm |-> nm,
     dev |-> IF \E m \in Elems(c.broken) : ~Derivable(Loot(c), c.full, W.msgs[m]) THEN {"reveals"} ELSE {}]

Step(c) ==
    CASE c.e \in {"bun", "enc", "dec", "ppk"} -> OpStep(c)
      [] c.e = "ini" -> IniStep(c)
      [] c.e = "prb" -> ProbeStep(c)
      [] c.e \in {"spk", "opk"} -> KeyStep(c)
      [] c.e \in {"arc", "tru", "clr"} -> AppStep(c)
      [] c.e = "cmp" -> StealStep(c)
      [] c.e = "lft" -> [exp |-> {"ok"}, tag |-> "", W |-> Lift(W, c.p, c.r, c.by), nm |-> nm, dev |-> {}]
      [] c.e = "snp" -> [exp |-> {"ok"}, tag |-> "", W |-> W, nm |-> nm, dev |-> {}]

----------------------------------------------------------------------------
(* Which properties a deviation breaks.                                    *)

Props(dev, c, s) ==
    LET e == IF c.e = "prb" THEN "dec" ELSE c.e
        mangled == e = "dec" /\ DOMAIN c.d # {}
    IN
    (CASE dev = "refused" ->
             (CASE e = "dec" -> {"C01"} \cup (IF s.tag = "prev" THEN {"C11"} ELSE {})
                                \cup (IF s.tag = "new" THEN {"C06", "C11", "C07"} ELSE {})
                                \cup (IF s.tag \in {"skip", "jump", "step", "prev"} THEN {"C10"} ELSE {})
                [] e = "enc" -> {"C01", "C06", "C11"}
                [] e \in {"bun", "ppk", "ini"} -> {"C06"}
                [] OTHER -> {"C21", "C11"})
             \cup (IF c.res = "unt" THEN {"C05"} ELSE {})
             \cup (IF c.res = "dup" THEN {"C02"} ELSE {})
       [] dev = "accepted" ->
             (CASE e = "dec" -> (IF "dup" \in s.exp THEN {"C02"} ELSE {})
                                \cup (IF "inv" \in s.exp \/ "nos" \in s.exp THEN {"C03"} ELSE {})
                                \cup (IF s.tag = "far" THEN {"C10"} ELSE {})
                                \cup (IF s.tag = "missing" THEN {"C07"} ELSE {})
                                \cup (IF s.tag = "unusable" THEN {"C02", "C06"} ELSE {})
                                \cup (IF mangled THEN {"C03"} ELSE {})
                [] e = "enc" -> {"C11"}
                [] e \in {"bun", "ppk"} -> IF "inv" \in s.exp THEN {"C06"} \cup (IF s.tag = "missing" THEN {"C07"} ELSE {}) ELSE {}
                [] OTHER -> {})
             \cup (IF "unt" \in s.exp THEN {"C05"} ELSE {})
             \cup (IF e = "dec" /\ Times(W, c.p, c.r, c.m) > 0 THEN {"C02"} ELSE {})
       [] dev = "class" ->
             (IF "dup" \in s.exp \/ c.res = "dup" THEN {"C02"} ELSE {})
             \cup (IF "unt" \in s.exp \/ c.res = "unt" THEN {"C05"} ELSE {})
             \cup (IF "nos" \in s.exp \/ c.res = "nos" THEN {"C11"} ELSE {})
       [] dev = "panic" -> {"C18"} \cup (CASE e = "dec" -> {"C03", "C01"} \cup (IF s.tag = "far" THEN {"C10"} ELSE {}) [] e = "enc" -> {"C01"} [] e \in {"bun", "ppk", "ini"} -> {"C06"} [] OTHER -> {})
       [] dev = "faultok" -> {"C17"}
       [] dev = "unsaved" -> {"C17"} \cup (CASE e = "dec" -> {"C02", "C09"} [] e = "enc" -> {"C08"} [] OTHER -> {})
       [] dev = "used" -> {"C06", "C07"}
       [] dev = "order" -> {"C17", "C07"}
       [] dev = "changed" -> {"C04"}
       [] dev = "buffer" -> {"C04"}
       [] dev = "leak" -> IF e = "dec" THEN {"C03", "C17"} ELSE {"C17"}
       [] dev = "other" -> {"C16"}
       [] dev = "diverges" -> {"C24"}
       [] dev = "pinned" -> {"C05"}
       [] dev = "prekeys" -> {"C07"}
       [] dev \in {"current", "archived"} -> {"C11"}
       [] dev = "type" -> {"C06"}
       [] dev = "envelope" -> {"C06"}
       [] dev \in {"counter", "prevcounter", "ratchetkey", "keyreuse", "keygen"} -> {"C08"}
       [] dev = "version" -> {"C18", "C23"}
       [] dev = "roundtrip" -> {"C18"}
       [] dev = "length" -> {"C26"}
       [] dev = "plaintext" -> {"C01", "C03"}
       [] dev = "reveals" -> {"C09"})
    \* histories made for one property
    \cup (CASE cx.focus = "C10" /\ dev \in {"refused", "accepted", "class", "plaintext", "panic"} -> {"C10"}
            [] cx.focus = "C11" /\ dev \in {"refused", "accepted", "class", "plaintext", "panic"} -> {"C11"}
            [] cx.focus = "C16" /\ dev \in {"refused", "accepted", "panic", "pinned", "prekeys", "current", "archived"} -> {"C16"}
            [] cx.focus = "C06" /\ dev \in {"refused", "accepted", "panic"} -> {"C06"}
            [] cx.focus = "C07" /\ dev \in {"refused", "accepted", "panic"} -> {"C07"}
            [] OTHER -> {})
    \* what goes wrong after a fault
    \cup (IF cx.faulty \/ Fired(c) THEN {"C17"} ELSE {})

----------------------------------------------------------------------------
NoWorld == World(<<>>)

Init0 == /\ l = 1 /\ W = NoWorld /\ nm = <<>> /\ skip = TRUE /\ cov = <<>>
         /\ cx = [h |-> 0, focus |-> "", faulty |-> FALSE, snaps |-> <<>>, nd |-> 0]

\* The start of a history
Begin(c) ==
    LET w0 == World(c.ids)
        ps == SetToSeq1(DOMAIN c.ids)
        pairs == [i \in 1..Len(ps) |-> <<c.lab[ps[i]], c.ids[ps[i]].k>>]
        evil == [i \in 1..Len(c.evil) |-> <<c.evil[i], EvilBase + i>>]
        learnt == Learn(<<>>, pairs \o evil)
    IN  /\ W' = w0 /\ nm' = learnt.nm
        /\ cx' = [h |-> cx.h + 1, focus |-> Fld(c, "focus", ""), faulty |-> Has(c, "dribble"), snaps |-> <<>>, nd |-> 0]
        /\ IF learnt.ok THEN skip' = FALSE
           ELSE /\ skip' = TRUE
                /\ PrintT("DEV " \o ToJson([line |-> l, h |-> cx.h + 1, dev |-> {"keygen"}, props |-> {"C08", "C20"},
                            e |-> "init", exp |-> {}, got |-> "", tag |-> ""]))

Add(f, k, n) == Put(f, k, IF k \in DOMAIN f THEN f[k] + n ELSE n)

Tally(c, s) ==
    IF c.e = "cmp"
    THEN Add(Add(Add(cov, "cmp/read", Len(c.broken)), "cmp/derivable",
                 Cardinality({m \in Mids(W) : Derivable(Loot(c), c.full, W.msgs[m])})), "cmp/messages", Len(W.msgs))
    ELSE LET k == c.e \o "/" \o s.tag \o "/" \o (IF Fired(c) THEN "fault" ELSE Fld(c, "res", ""))
         IN  Add(cov, k, 1)

\* For C23: the keys of all messages made so far, as terms, for evaluation.
LastOf(n) == n >= Len(Trace) \/ Trace[n + 1].e = "init"
Terms(w, names) ==
    IF "TERMS" \notin DOMAIN IOEnv THEN TRUE
    ELSE PrintT("TERM " \o ToJson([h |-> cx.h, names |-> {<<k, names[k]>> : k \in DOMAIN names},
            msgs |-> [m \in Mids(w) |-> [ck |-> w.msgs[m].ck, n |-> w.msgs[m].kctr, from |-> w.msgs[m].from, to |-> w.msgs[m].to]]]))

\* After a deviation the history goes on as the specification has it, so that
\* what follows from it is seen as well; not after these, which leave the
\* specification with other messages or sessions than the library.
Fatal == {"accepted", "type", "keygen", "faultok"}

Consume ==
    /\ l <= Len(Trace)
    /\ l' = l + 1
    /\ LET c == Trace[l]
       IN  IF c.e = "init" THEN Begin(c) /\ UNCHANGED cov
           ELSE IF skip THEN UNCHANGED <<W, nm, cx, skip, cov>>
           ELSE LET s == Step(c)
                IN  /\ W' = s.W /\ nm' = s.nm
                    /\ cov' = Tally(c, s)
                    /\ cx' = [cx EXCEPT !.faulty = @ \/ Fired(c),
                                         !.snaps = IF c.e = "snp" THEN Append(@, W.P[c.p]) ELSE @,
                                         !.nd = IF s.dev = {} THEN @ ELSE @ + 1]
                    /\ IF s.dev # {} \/ LastOf(l) THEN Terms(s.W, s.nm) ELSE TRUE
                    /\ IF s.dev = {} THEN skip' = FALSE
                       ELSE /\ skip' = (s.dev \cap Fatal # {} \/ cx.nd >= 5)
                            /\ PrintT("DEV " \o ToJson([line |-> l, h |-> cx.h, dev |-> s.dev,
                                  props |-> UNION {Props(d, c, s) : d \in s.dev},
                                  e |-> c.e, exp |-> s.exp, got |-> Fld(c, "res", ""), tag |-> s.tag]))

\* The properties hold in the world of the specification at the end of
\* every history, too.
EndOfHistory == ~skip /\ cx.nd = 0 /\ (l > Len(Trace) \/ Trace[l].e = "init")
SoundOnce == EndOfHistory => AtMostOnce(W)
SoundKeys == EndOfHistory => KeysUnique(W)
SoundAuth == EndOfHistory => Authentic(W)
SoundBounds == EndOfHistory => Bounded(W)
SoundOpk == EndOfHistory /\ ~cx.faulty => OpkOnce(W)

Finish == /\ l = Len(Trace) + 1
          /\ PrintT("END " \o ToJson([lines |-> Len(Trace), histories |-> cx.h, cov |-> cov]))
          /\ l' = l + 1
          /\ UNCHANGED <<W, nm, cx, skip, cov>>

Spec == Init0 /\ [][Consume \/ Finish]_vars
Seen == l
============================================================================
