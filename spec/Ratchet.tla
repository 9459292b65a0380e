------------------------------ MODULE Ratchet ------------------------------
(***************************************************************************)
(* The functional core of the 1:1 protocol of RTann/libsignal-go: X3DH     *)
(* session set-up, the Double Ratchet, session records with archived       *)
(* states, identity pinning and one-time pre-keys, over symbolic           *)
(* cryptography.  Everything here is a pure operator on values; the state  *)
(* machines (SessionMC, SessionGen, SessionTrace) are built from these.    *)
(*                                                                         *)
(* Keys are naturals; key 0 is a low-order public key, with which no       *)
(* agreement succeeds, and negative numbers are aliases (non-canonical     *)
(* encodings) of the key they negate.  Secrets are terms:                  *)
(*   <<"s", <<dh, ...>>>>     the X3DH secret                              *)
(*   <<"r0", s>> <<"c0", s>>  root and chain key derived from it           *)
(*   <<"r", dh, root>>        root key after a DH ratchet step             *)
(*   <<"c", dh, root>>        chain key of that step                       *)
(* A message key is a pair (chain term, index).                            *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

CONSTANTS MaxJumps,      \* messages which may be skipped at once
          MaxKeys,       \* skipped message keys kept per receiver chain
          MaxChains,     \* receiver chains kept per session state
          MaxArchived    \* archived session states kept per record

Max(a, b) == IF a >= b THEN a ELSE b
Min(a, b) == IF a <= b THEN a ELSE b
Abs(k) == IF k < 0 THEN -k ELSE k

None == <<>>              \* optional values are sequences of length 0 or 1
Some(x) == <<x>>
IsSome(o) == Len(o) = 1

Put(f, k, v) == (k :> v) @@ f
Del(f, k) == [x \in DOMAIN f \ {k} |-> f[x]]
Get(f, k) == IF k \in DOMAIN f THEN Some(f[k]) ELSE None

RemoveAt(s, i) == SubSeq(s, 1, i - 1) \o SubSeq(s, i + 1, Len(s))
LastN(s, n) == IF Len(s) > n THEN SubSeq(s, Len(s) - n + 1, Len(s)) ELSE s
Range(lo, hi) == [i \in 1..Max(hi - lo + 1, 0) |-> lo + i - 1]

----------------------------------------------------------------------------
(* Symbolic cryptography *)

LowOrder == 0
Usable(k) == k # LowOrder
Canonical(k) == k >= 0
\* An alias of a key yields the same secrets as the key.
DH(a, b) == LET x == Abs(a)
                y == Abs(b)
            IN  IF x <= y THEN <<x, y>> ELSE <<y, x>>

Secret(dhs) == <<"s", dhs>>
Root0(sec) == <<"r0", sec>>
Chain0(sec) == <<"c0", sec>>
RootStep(dh, root) == <<"r", dh, root>>
ChainStep(dh, root) == <<"c", dh, root>>

----------------------------------------------------------------------------
(* Session states                                                          *)
(*   lid, rid   local and remote identity key                              *)
(*   root       root key                                                   *)
(*   rc         receiver chains, oldest first: rk, ck, idx, skip           *)
(*              (idx is the next counter not seen; skip holds, ascending,  *)
(*              the counters of skipped messages whose keys are kept)      *)
(*   sc         sender chain: rk, ck, idx                                  *)
(*   pc         last counter of the previous sender chain                  *)
(*   pend       set-up data to repeat: opk (optional id), spk (id), base   *)
(*   base       base key of the initiator, which identifies the session    *)

AliceSecret(ik, ek, idk, spk, opk) ==
    Secret(<<DH(ik, spk), DH(ek, idk), DH(ek, spk)>>
           \o (IF IsSome(opk) THEN <<DH(ek, opk[1])>> ELSE <<>>))

AliceInit(ik, ek, rk, idk, spk, opk, opkid, spkid, lreg) ==
    LET sec == AliceSecret(ik, ek, idk, spk, opk)
        r0  == Root0(sec)
        dh  == DH(rk, spk)
    IN  [lid |-> ik, rid |-> idk, root |-> RootStep(dh, r0),
         rc |-> <<[rk |-> spk, ck |-> Chain0(sec), idx |-> 0, skip |-> <<>>]>>,
         sc |-> [rk |-> rk, ck |-> ChainStep(dh, r0), idx |-> 0],
         pc |-> 0,
         pend |-> Some([opk |-> opkid, spk |-> spkid, base |-> ek]),
         base |-> ek, lreg |-> lreg]

BobInit(ik, spk, opk, idk, base, lreg) ==
    LET sec == AliceSecret(idk, base, ik, spk, opk)
    IN  [lid |-> ik, rid |-> idk, root |-> Root0(sec),
         rc |-> <<>>,
         sc |-> [rk |-> spk, ck |-> Chain0(sec), idx |-> 0],
         pc |-> 0, pend |-> None, base |-> base, lreg |-> lreg]

ChainIdx(s, rk) ==
    LET I == {i \in 1..Len(s.rc) : s.rc[i].rk = rk}
    IN  IF I = {} THEN 0 ELSE CHOOSE i \in I : \A j \in I : i <= j

(* A message: typ "pk" or "sig"; rk, ctr, pc the header; ck, kctr the key  *)
(* it was encrypted with; from, to the identities covered by the MAC; ok   *)
(* whether everything the MAC covers is as it was made; body the           *)
(* plaintext; and for "pk" the envelope reg, opk, spk, base, idk.          *)

Res(r, st) == [res |-> r, st |-> st]

\* A chain after the key of the counter was taken.
Take(c, ctr) ==
    IF c.idx > ctr
    THEN [c EXCEPT !.skip = SelectSeq(@, LAMBDA x : x # ctr)]
    ELSE \* only the last MaxKeys counters can survive
         [c EXCEPT !.skip = LastN(@ \o Range(Max(c.idx, ctr - MaxKeys), ctr - 1), MaxKeys), !.idx = ctr + 1]

MacHolds(s, c, m) == m.ok /\ c.ck = m.ck /\ s.rid = m.from /\ s.lid = m.to

\* Decrypting with one session state.  fk is the name of the key that a
\* ratchet step generates.  tag says which way the decision went.
DecState(s, m, fk) ==
    LET i0 == ChainIdx(s, m.rk)
        r1 == RootStep(DH(s.sc.rk, m.rk), s.root)
        new == [s EXCEPT
                  !.root = RootStep(DH(fk, m.rk), r1),
                  !.rc = LastN(Append(s.rc, [rk |-> m.rk,
                                             ck |-> ChainStep(DH(s.sc.rk, m.rk), s.root),
                                             idx |-> 0, skip |-> <<>>]), MaxChains),
                  !.pc = Max(s.sc.idx - 1, 0),
                  !.sc = [rk |-> fk, ck |-> ChainStep(DH(fk, m.rk), r1), idx |-> 0]]
        s1 == IF i0 = 0 THEN new ELSE s
        i  == IF i0 = 0 THEN Len(new.rc) ELSE i0
        c  == s1.rc[i]
        skipped == m.ctr \in {c.skip[j] : j \in 1..Len(c.skip)}
        jump == m.ctr - c.idx
        c2 == Take(c, m.ctr)
        mac == MacHolds(s, c, m)
        s2 == [s1 EXCEPT !.rc[i] = c2, !.pend = None]
    IN  IF i0 = 0 /\ ~Usable(m.rk)
        THEN [res |-> "inv", tag |-> "low", st |-> s]
        ELSE IF c.idx > m.ctr /\ ~skipped
        THEN [res |-> "dup", tag |-> "old", st |-> s]
        ELSE IF c.idx <= m.ctr /\ jump > MaxJumps /\ s.lid # s.rid
        THEN [res |-> "inv", tag |-> "far", st |-> s]
        ELSE IF ~mac
        THEN [res |-> "inv", tag |-> "mac", st |-> s]
        ELSE [res |-> "ok", st |-> s2,
              tag |-> IF c.idx > m.ctr THEN "skip" ELSE IF i0 = 0 THEN "step" ELSE IF jump > 0 THEN "jump" ELSE "next"]

----------------------------------------------------------------------------
(* Session records: cur (optional state), prev (states, oldest first)      *)

FreshRecord == [cur |-> None, prev |-> <<>>]

Archive(rec) ==
    IF IsSome(rec.cur)
    THEN [cur |-> None, prev |-> LastN(Append(rec.prev, rec.cur[1]), MaxArchived)]
    ELSE rec

Promote(rec, st) == [Archive(rec) EXCEPT !.cur = Some(st)]

States(rec) == {rec.cur[i] : i \in 1..Len(rec.cur)} \cup {rec.prev[i] : i \in 1..Len(rec.prev)}

HasBase(rec, base) ==
    \/ IsSome(rec.cur) /\ rec.cur[1].base = base
    \/ \E i \in 1..Len(rec.prev) : rec.prev[i].base = base

\* Trial decryption: the current state, then the archived ones.  Sessions may
\* share a ratchet key (the signed pre-key, on which the responder of a session
\* set up directly sends first), so what is a duplicate to one of them may
\* still be new to another.
GivesUp(res) == FALSE

RECURSIVE DecPrev(_, _, _, _, _)
DecPrev(rec, m, fk, i, dup) ==
    IF i > Len(rec.prev)
    THEN [res |-> IF dup THEN "dup" ELSE "inv", tag |-> IF dup THEN "prev" ELSE "none", rec |-> rec]
    ELSE LET d == DecState(rec.prev[i], m, fk)
         IN  IF d.res = "ok"
             THEN [res |-> "ok", tag |-> "prev",
                   rec |-> Promote([rec EXCEPT !.prev = RemoveAt(@, i)], d.st)]
             ELSE IF GivesUp(d.res) THEN [res |-> d.res, tag |-> "prev", rec |-> rec]
             ELSE DecPrev(rec, m, fk, i + 1, dup \/ d.res = "dup")

DecRecord(rec, m, fk) ==
    IF ~IsSome(rec.cur) THEN DecPrev(rec, m, fk, 1, FALSE)
    ELSE LET d == DecState(rec.cur[1], m, fk)
         IN  IF d.res = "ok"
             THEN [res |-> "ok", tag |-> d.tag, rec |-> [rec EXCEPT !.cur = Some(d.st)]]
             ELSE IF GivesUp(d.res) THEN [res |-> d.res, tag |-> d.tag, rec |-> rec]
             ELSE LET p == DecPrev(rec, m, fk, 1, d.res = "dup")
                  IN  IF p.res = "ok" \/ (d.res # "dup" /\ p.tag # "none")
                      THEN p ELSE [p EXCEPT !.tag = d.tag]

----------------------------------------------------------------------------
(* Parties: id, reg, sess (address -> record), ident (address -> key),     *)
(* spk, opk (id -> key)                                                    *)

NewParty(id, reg) ==
    [id |-> id, reg |-> reg, sess |-> <<>>, ident |-> <<>>, spk |-> <<>>, opk |-> <<>>]

Rec(P, r) == IF r \in DOMAIN P.sess THEN P.sess[r] ELSE FreshRecord
Trusts(P, r, k) == r \notin DOMAIN P.ident \/ P.ident[r] = k
SetRec(P, r, rec) == [P EXCEPT !.sess = Put(@, r, rec)]
Pin(P, r, k) == [P EXCEPT !.ident = Put(@, r, k)]

(* Every operator below returns a record with                              *)
(*   res   the set of permitted outcomes; if more than one, the operation  *)
(*         fails for several reasons, and any of them may be reported      *)
(*   P     the party afterwards, if the outcome is "ok"; otherwise the     *)
(*         party is unchanged                                              *)
(*   w     the stores written on the way: a sequence of                    *)
(*         "id", "sess", "opk" (deletion)                                  *)

Fail(P, why, tag) == [res |-> why, P |-> P, tag |-> tag, w |-> <<>>]

\* b: idk, spk, spkid, opk (optional key), opkid (optional id), sig
\* (whether the signature of spk by idk is right), reg
ProcessBundle(P, r, b, ek, rk) ==
    LET untrusted == ~Trusts(P, r, b.idk)
        invalid == \/ ~b.sig \/ ~Usable(b.idk) \/ ~Usable(b.spk)
                   \/ IsSome(b.opk) /\ ~Usable(b.opk[1])
        st == AliceInit(P.id, ek, rk, b.idk, b.spk, b.opk, b.opkid, b.spkid, P.reg)
    IN  IF untrusted \/ invalid
        THEN Fail(P, (IF untrusted THEN {"unt"} ELSE {}) \cup (IF invalid THEN {"inv"} ELSE {}), "bundle")
        ELSE [res |-> {"ok"}, tag |-> "bundle", w |-> <<"id", "sess">>,
              P |-> SetRec(Pin(P, r, b.idk), r, Promote(Rec(P, r), st))]

Advance(idx, n) == idx + n

\* n messages at once; the first has the counter of the sender chain.
Encrypt(P, r, n) ==
    LET rec == Rec(P, r)
        st == rec.cur[1]
    IN  IF ~IsSome(rec.cur) THEN Fail(P, {"nos"}, "enc")
        ELSE IF ~Trusts(P, r, st.rid) THEN Fail(P, {"unt"}, "enc")
        ELSE [res |-> {"ok"}, tag |-> "enc", w |-> <<"id", "sess">>,
              P |-> SetRec(Pin(P, r, st.rid), r, [rec EXCEPT !.cur[1].sc.idx = Advance(@, n)])]

\* The message the party would send next, with body b, if it skipped off
\* messages first.
NextMessage(P, r, off, b) ==
    LET st == Rec(P, r).cur[1]
        h == [rk |-> st.sc.rk, ctr |-> st.sc.idx + off, pc |-> st.pc,
              ck |-> st.sc.ck, kctr |-> st.sc.idx + off,
              from |-> st.lid, to |-> st.rid, ok |-> TRUE, body |-> b,
              base0 |-> st.base]  \* which session; no part of the message
    IN  IF IsSome(st.pend)
        THEN [typ |-> "pk"] @@ h @@
             [reg |-> st.lreg, opk |-> st.pend[1].opk, spk |-> st.pend[1].spk,
              base |-> st.pend[1].base, idk |-> st.lid]
        ELSE [typ |-> "sig"] @@ h

\* Signal message
DecryptSignal(P, r, m, fk) ==
    LET d == DecRecord(Rec(P, r), m, fk)
        rid == d.rec.cur[1].rid
    IN  IF r \notin DOMAIN P.sess THEN Fail(P, {"nos"}, "nosession")
        ELSE IF d.res # "ok"
        THEN Fail(P, {d.res} \cup (IF \A s \in States(Rec(P, r)) : Trusts(P, r, s.rid) THEN {} ELSE {"unt"}), d.tag)
        ELSE IF ~Trusts(P, r, rid) THEN Fail(P, {"unt"}, "untrusted")
        ELSE [res |-> {"ok"}, tag |-> d.tag, w |-> <<"id", "sess">>,
              P |-> SetRec(Pin(P, r, rid), r, d.rec)]

\* whether a pre-key message, accepted, uses up its one-time pre-key
Consumes(known, m) == ~known /\ IsSome(m.opk)

\* Pre-key message
DecryptPreKey(P, r, m, fk) ==
    LET rec == Rec(P, r)
        known == HasBase(rec, m.base)
        untrusted == ~Trusts(P, r, m.idk)
        missing == \/ m.spk \notin DOMAIN P.spk
                   \/ IsSome(m.opk) /\ m.opk[1] \notin DOMAIN P.opk
        unusable == ~Usable(m.base) \/ ~Canonical(m.base) \/ ~Usable(m.idk)
        st0 == BobInit(P.id, P.spk[m.spk],
                       IF IsSome(m.opk) THEN Some(P.opk[m.opk[1]]) ELSE None,
                       m.idk, m.base, P.reg)
        d0 == DecState(st0, m, fk)
        d == IF known THEN DecRecord(rec, m, fk)
             ELSE [res |-> IF d0.res = "ok" THEN "ok" ELSE "inv", tag |-> "new",
                   rec |-> Promote(rec, d0.st)]
        bad == IF ~known /\ (missing \/ unusable) THEN {"inv"}
               ELSE IF d.res # "ok" THEN {d.res} ELSE {}
        rid == d.rec.cur[1].rid
    IN  IF bad # {} \/ untrusted
        THEN Fail(P, bad \cup (IF untrusted THEN {"unt"} ELSE {}),
                  IF untrusted THEN "untrusted" ELSE IF ~known /\ missing THEN "missing"
                  ELSE IF ~known /\ unusable THEN "unusable" ELSE d.tag)
        ELSE IF ~Trusts(P, r, rid) THEN Fail(P, {"unt"}, "untrusted")
        ELSE LET P1 == SetRec(Pin(P, r, rid), r, d.rec)
                 del == Consumes(known, m)
             IN  [res |-> {"ok"}, tag |-> d.tag,
                  w |-> <<"id", "sess">> \o (IF del THEN <<"opk">> ELSE <<>>),
                  P |-> IF del THEN [P1 EXCEPT !.opk = Del(@, m.opk[1])] ELSE P1]

\* Only the session set-up of a pre-key message, which proves nothing yet.
\* The application stores the record, and deletes the pre-key it is told.
ProcessPreKey(P, r, m) ==
    LET rec == Rec(P, r)
        known == HasBase(rec, m.base)
        untrusted == ~Trusts(P, r, m.idk)
        missing == \/ m.spk \notin DOMAIN P.spk
                   \/ IsSome(m.opk) /\ m.opk[1] \notin DOMAIN P.opk
        unusable == ~Usable(m.base) \/ ~Canonical(m.base) \/ ~Usable(m.idk)
        bad == ~known /\ (missing \/ unusable)
        st0 == BobInit(P.id, P.spk[m.spk],
                       IF IsSome(m.opk) THEN Some(P.opk[m.opk[1]]) ELSE None,
                       m.idk, m.base, P.reg)
        P1 == SetRec(Pin(P, r, m.idk), r, IF known THEN rec ELSE Promote(rec, st0))
        del == Consumes(known, m)
    IN  IF bad \/ untrusted
        THEN Fail(P, (IF bad THEN {"inv"} ELSE {}) \cup (IF untrusted THEN {"unt"} ELSE {}),
                  IF untrusted THEN "untrusted" ELSE IF missing THEN "missing" ELSE "unusable")
        ELSE [res |-> {"ok"}, tag |-> IF known THEN "known" ELSE "new",
              w |-> <<"id", "sess">> \o (IF del THEN <<"opk">> ELSE <<>>),
              P |-> IF del THEN [P1 EXCEPT !.opk = Del(@, m.opk[1])] ELSE P1]

Decrypt(P, r, m, fk) ==
    CASE m.typ = "pk" -> DecryptPreKey(P, r, m, fk)
      [] m.typ = "sig" -> DecryptSignal(P, r, m, fk)
      [] OTHER -> Fail(P, {"inv"}, "kind")

\* The application archives the current session of an address.
ArchiveSession(P, r) ==
    IF r \in DOMAIN P.sess THEN SetRec(P, r, Archive(P.sess[r])) ELSE P
============================================================================
