----------------------------- MODULE KeysTrace ------------------------------
EXTENDS Keys, Cases

VerDev(c) ==
    LET good == Verifies(Signature(c.by, c.parts), c.mut, c.pub, c.claim)
    IN  IF c.res = "panic" THEN {"panic"}
        ELSE IF c.alias THEN {}
        ELSE (IF good /\ c.res # "yes" THEN {"refused"} ELSE {})
             \cup (IF ~good /\ c.res = "yes" THEN {"accepted"} ELSE {})
             \cup (IF good /\ ~c.ind THEN {"scheme"} ELSE {})
             \cup (IF c.same THEN {} ELSE {"buffer"})
AltDev(c) ==
    LET good == c.mut = "none" /\ Vouches(c.by, c.other, c.pub, c.claimed)
    IN  IF c.res = "panic" THEN {"panic"}
        ELSE (IF good /\ c.res # "yes" THEN {"refused"} ELSE {})
             \cup (IF ~good /\ c.res = "yes" THEN {"accepted"} ELSE {})
             \cup (IF good /\ ~c.ind THEN {"scheme"} ELSE {})
\* Nonces: two signatures start alike only if everything is the same.
NonDev(c) == IF c.alike <=> (c.k1 = c.k2 /\ Bytes(c.m1) = Bytes(c.m2) /\ c.z1 = c.z2) THEN {} ELSE {"nonce"}
\* An agreement of a private key with the public key b, and the other side's.
DhDev(c) ==
    IF c.res = "panic" THEN {"panic"}
    ELSE IF Len(c.b) # 32 \/ (Len(c.b) = 32 /\ LowOrder(c.b)) THEN (IF c.res = "ok" THEN {"accepted"} ELSE {})
    ELSE IF c.res # "ok" THEN {"refused"}
    ELSE (IF c.secret # c.ref THEN {"secret"} ELSE {}) \cup (IF Has(c, "back") /\ c.back # c.secret THEN {"sides"} ELSE {})
\* Agreements among several keys: x = <<a, b, secret>>
DhsDev(c) ==
    IF \E i, j \in 1..Len(c.x) : (c.x[i][3] = c.x[j][3]) # (Secret(c.x[i][1], c.x[i][2]) = Secret(c.x[j][1], c.x[j][2])) THEN {"distinct"} ELSE {}
EqDev(c) == IF c.res # (c.x = c.y) THEN {"equal"} ELSE {}
CanDev(c) == IF c.res # Canonical(c.b) THEN {"canonical"} ELSE {}
PrivDev(c) ==
    IF c.res = "panic" THEN {"panic"}
    ELSE IF Len(c.b) # 32 THEN (IF c.res = "ok" THEN {"accepted"} ELSE {})
    ELSE IF c.res # "ok" THEN {"refused"}
    ELSE (IF c.out \notin {c.b, Clamped(c.b)} THEN {"private"} ELSE {}) \cup (IF c.pub # c.ref THEN {"public"} ELSE {}) \cup (IF c.again THEN {} ELSE {"roundtrip"})
PairDev(c) ==
    LET good == Len(c.b) = 32 /\ Len(c.p) >= 33 /\ (Len(c.p) >= 33 => c.p[1] = 5)
    IN  IF c.res = "panic" THEN {"panic"}
        ELSE IF ~good THEN (IF c.res = "ok" THEN {"accepted"} ELSE {})
        ELSE IF c.res # "ok" THEN (IF Len(c.p) = 33 THEN {"refused"} ELSE {})
        ELSE (IF c.out \notin {c.b, Clamped(c.b)} THEN {"private"} ELSE {}) \cup (IF c.pub # SubSeq(c.p, 1, 33) THEN {"public"} ELSE {})
\* A new key pair: c.fail: its source of random bytes failed.
MakeDev(c) ==
    IF c.res = "panic" THEN {"panic"}
    ELSE IF c.fail THEN (IF c.res = "ok" THEN {"accepted"} ELSE {})
    ELSE IF c.res # "ok" THEN {"refused"}
    ELSE (IF c.pub # c.ref THEN {"public"} ELSE {}) \cup (IF c.again THEN {} ELSE {"roundtrip"}) \cup (IF c.fresh THEN {} ELSE {"distinct"})

KeyJudge(c) ==
    LET dev == CASE c.e = "ver" -> VerDev(c) [] c.e = "alt" -> AltDev(c) [] c.e = "non" -> NonDev(c) [] c.e = "dh" -> DhDev(c)
                 [] c.e = "dhs" -> DhsDev(c) [] c.e = "eq" -> EqDev(c) [] c.e = "can" -> CanDev(c) [] c.e = "priv" -> PrivDev(c)
                 [] c.e = "pair" -> PairDev(c) [] c.e = "make" -> MakeDev(c)
    IN  [dev |-> dev, props |-> {"C20"}, exp |-> "", tag |-> c.e \o "/" \o (IF Has(c, "res") THEN (IF c.e \in {"eq", "can"} THEN (IF c.res THEN "yes" ELSE "no") ELSE c.res) ELSE "")]
=============================================================================
