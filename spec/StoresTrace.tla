---------------------------- MODULE StoresTrace ----------------------------
(* Checks recorded histories of operations on stores and records against   *)
(* Stores.  Besides its result, each line tells which records in hand      *)
(* (c.hs) and which entries of stores (c.es) look different afterwards.    *)
EXTENDS Stores, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES l, W, skip, hist, cov
vars == <<l, W, skip, hist, cov>>

Has(c, f) == f \in DOMAIN c
Elems(s) == {s[i] : i \in 1..Len(s)}
Count(f, k) == IF k \in DOMAIN f THEN [f EXCEPT ![k] = @ + 1] ELSE (k :> 1) @@ f

\* Long lists of keys are recorded as their number and their ends.
Brief(ks) == IF Len(ks) <= 20 THEN ks ELSE <<"#", ToString(Len(ks)), ks[1], Last(ks)>>
BriefState(st) == [st EXCEPT !.rcv = [i \in DOMAIN @ |-> [@[i] EXCEPT !.mks = Brief(@)]]]
BriefRec(r) == [cur |-> [i \in DOMAIN r.cur |-> BriefState(r.cur[i])], old |-> [i \in DOMAIN r.old |-> BriefState(r.old[i])],
                acc |-> Answers(r)]
\* The order of a group record's states and keys shows only in which are
\* dropped, and in which state is the current one: that added last.
BriefGroup(g) == {[cur |-> i = Len(g)] @@ [g[i] EXCEPT !.mks = IF Len(@) <= 20 THEN Elems(@) ELSE {"#", ToString(Len(@))}] : i \in DOMAIN g}
SeenGroup(g) == {[s EXCEPT !.mks = Elems(@)] : s \in Elems(g)}

Shown(c, v) == IF c.e \in {"sload", "look"} /\ v # None THEN Some(BriefRec(v[1])) ELSE v

Dev(c, o) ==
    LET done == c.res = "ok"
        val == IF c.e \in {"gload", "glook"}
               THEN IF Len(c.val) # Len(o.val) THEN {"value"}
                    ELSE IF o.val = None THEN {}
                    ELSE IF Len(c.val[1]) # Len(o.val[1]) \/ SeenGroup(c.val[1]) # BriefGroup(o.val[1]) THEN {"value"} ELSE {}
               ELSE IF c.val # Shown(c, o.val) THEN {"value"} ELSE {}
    IN  (IF c.res = "panic" THEN {"panic"}
         ELSE IF o.ok /\ ~done THEN {"refused"}
         ELSE IF ~o.ok /\ done THEN {"accepted"}
         ELSE IF done THEN val ELSE {})
        \cup (IF Elems(c.es) \subseteq Target(W, c) THEN {} ELSE {"entry"})
        \cup (IF \E h \in Elems(c.hs) : ~(Has(c, "h") /\ c.h = h) THEN {"alias"} ELSE {})
        \cup (IF c.e \in {"chg", "arch", "promo", "set", "old", "copy", "new"} /\ Has(c, "rec") /\ done /\ c.rec # BriefRec(o.W.H[c.h]) THEN {"record"} ELSE {})
        \cup (IF c.e \in {"gchg", "gnew"} /\ Has(c, "rec") /\ done /\ (Len(c.rec) # Len(o.W.G[c.h]) \/ SeenGroup(c.rec) # BriefGroup(o.W.G[c.h])) THEN {"record"} ELSE {})

Props(c, dev) ==
    (IF c.e \in StoreOps \cup {"iclear", "kp", "reg"} \/ dev \cap {"entry", "alias"} # {} THEN {"C21"} ELSE {})
    \cup (IF c.e \in StoreOps \cup {"iclear", "kp", "reg"} THEN {} ELSE {"C27"})

Kind(c) == IF c.e \in {"chg", "gchg"} THEN c.e \o "/" \o c.op ELSE c.e
Size(v) == IF v = None THEN "none" ELSE "some"

EmptyW == [S |-> <<>>, H |-> <<>>, G |-> <<>>, given |-> {}]
InitW(c) == [EmptyW EXCEPT !.S = [i \in 1..Len(c.stores) |-> NewStore(c.stores[i].kp, c.stores[i].reg)]]

Init == l = 1 /\ W = EmptyW /\ skip = TRUE /\ hist = 0 /\ cov = <<>>

Consume ==
    /\ l <= Len(Trace)
    /\ l' = l + 1
    /\ LET c == Trace[l]
       IN  IF c.e = "init"
           THEN W' = InitW(c) /\ skip' = FALSE /\ hist' = hist + 1 /\ UNCHANGED cov
           ELSE IF skip THEN UNCHANGED <<W, skip, hist, cov>>
           ELSE LET o == Step(W, c)
                    dev == Dev(c, o)
                IN  /\ W' = o.W
                    /\ skip' = (dev # {})
                    /\ cov' = Count(cov, Kind(c) \o "/" \o (IF o.ok THEN Size(o.val) ELSE "err"))
                    /\ UNCHANGED hist
                    /\ IF dev = {} THEN TRUE
                       ELSE PrintT("DEV " \o ToJson([line |-> l, h |-> hist, dev |-> dev, props |-> Props(c, dev), e |-> c.e,
                                                     exp |-> IF o.ok THEN "ok" ELSE "error", got |-> c.res, tag |-> Kind(c)]))

Finish == /\ l = Len(Trace) + 1
          /\ PrintT("END " \o ToJson([lines |-> Len(Trace), histories |-> hist, cov |-> cov]))
          /\ l' = l + 1 /\ UNCHANGED <<W, skip, hist, cov>>
Spec == Init /\ [][Consume \/ Finish]_vars
Seen == l
=============================================================================
