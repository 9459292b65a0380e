-------------------------- MODULE FingerprintTrace --------------------------
EXTENDS Fingerprint, Cases

\* One fingerprint: h1 and h2 are the two hashes as bytes.
OneDev(c) ==
    IF c.res = "panic" THEN {"panic"}
    ELSE IF ~Valid(c) THEN (IF c.res = "ok" THEN {"accepted"} ELSE {})
    ELSE IF c.res # "ok" THEN {"refused"}
    ELSE (IF c.num # Number(c.h1, c.h2) THEN {"number"} ELSE {})
         \cup (IF Has(c, "code") /\ ParseCode(c.code) # Code(c.ver, c.h1, c.h2) THEN {"code"} ELSE {})

\* Two fingerprints, by views
PairDev(c) ==
    (IF c.eq # SameNumber(c.v, c.w) THEN {"number"} ELSE {})
    \cup (IF Has(c, "vw") /\ c.vw # Scan2(c.v, c.w) THEN {"scan"} ELSE {})
    \cup (IF Has(c, "wv") /\ c.wv # Scan2(c.w, c.v) THEN {"scan"} ELSE {})

\* A code compared with arbitrary bytes
CmpDev(c) == IF c.res # Compare(c.ver, c.local, c.remote, c.b) THEN {"scan"} ELSE {}

\* Numbers and codes made of given bytes
NewDev(c) ==
    LET min == IF c.what = "number" THEN ShownSize ELSE CodeSize
        good == Len(c.h1) >= min /\ Len(c.h2) >= min
    IN  IF c.res = "panic" THEN {"panic"}
        ELSE IF ~good THEN (IF c.res = "ok" THEN {"accepted"} ELSE {})
        ELSE IF c.res # "ok" THEN {"refused"}
        ELSE IF c.what = "number" THEN (IF c.num # Number(c.h1, c.h2) THEN {"number"} ELSE {})
        ELSE (IF ParseCode(c.code) # Code(c.ver, c.h1, c.h2) THEN {"code"} ELSE {})

FpJudge(c) ==
    LET dev == (IF Has(c, "same") /\ ~c.same THEN {"buffer"} ELSE {})
            \cup (CASE c.e = "fp" -> OneDev(c) [] c.e = "pair" -> PairDev(c) [] c.e = "cmp" -> CmpDev(c) [] c.e = "new" -> NewDev(c))
    IN  [dev |-> dev, props |-> {"C19"},
         exp |-> CASE c.e = "pair" -> Scan2(c.v, c.w) [] c.e = "cmp" -> Compare(c.ver, c.local, c.remote, c.b) [] OTHER -> "",
         tag |-> c.e \o "/" \o (IF c.e = "pair" THEN Fld(c, "vw", "") \o (IF c.eq THEN "/same" ELSE "/other") ELSE c.res)]
=============================================================================
