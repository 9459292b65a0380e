----------------------------- MODULE SessionBad -----------------------------
(* Faults, each of which replaces one operator of Ratchet.  TLC must find   *)
(* that an invariant is violated: this shows that the invariants, within    *)
(* the same bounds, are not true for lack of histories.                     *)
EXTENDS SessionMC

\* the receiving chain does not move on
TakeStay(c, ctr) ==
    IF c.idx > ctr THEN [c EXCEPT !.skip = SelectSeq(@, LAMBDA x : x # ctr)]
    ELSE [c EXCEPT !.skip = @ \o Range(c.idx, ctr - 1), !.idx = ctr]
\* keys of skipped messages stay when they are used
TakeKeep(c, ctr) ==
    IF c.idx > ctr THEN c
    ELSE [c EXCEPT !.skip = @ \o Range(c.idx, ctr - 1), !.idx = ctr + 1]
\* keys of skipped messages are not kept
TakeForget(c, ctr) == IF c.idx > ctr THEN c ELSE [c EXCEPT !.skip = <<>>, !.idx = ctr + 1]
\* nothing is forgotten
KeepAll(s, k) == s
\* archiving leaves the session current
ArchiveCopies(rec) ==
    IF IsSome(rec.cur) THEN [rec EXCEPT !.prev = Append(@, rec.cur[1])] ELSE rec
\* replacing a session drops it
ArchiveDrops(rec) == [cur |-> None, prev |-> rec.prev]
\* every identity is trusted
TrustAll(P, r, k) == TRUE
\* one-time pre-keys are kept, or deleted by any message which names one
ConsumesNever(known, m) == FALSE
\* the counter does not move on
AdvanceNot(idx, k) == idx
\* other encodings of a base key are another base key
CanonicalAll(k) == TRUE
\* nothing is pinned
PinNot(P, r, k) == P
\* the MAC does not cover what it should
MacAny(s, c, m) == c.ck = m.ck
\* trial decryption stops at a session to which the message is a duplicate
GivesUpOnDup(res) == res = "dup"
=============================================================================
