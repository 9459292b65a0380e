---------------------------- MODULE PaddingTrace ----------------------------
EXTENDS Padding, Cases

\* c.off whole blocks of long texts are left out (c.pre: they were as they should be).
PadJudge(c) ==
    LET want == IF c.e = "enc" THEN Encrypts(c.key, c.iv, c.p) ELSE Decrypts(c.key, c.iv, c.n, c.raw)
        got == c.res = "ok"
        dev == (IF c.same THEN {} ELSE {"buffer"})
            \cup (IF c.res = "panic" THEN {"panic"}
                  ELSE IF ~want.ok THEN (IF got THEN {"accepted"} ELSE {})
                  ELSE IF ~got THEN (IF c.key = SureKeySize THEN {"refused"} ELSE {})
                  ELSE (IF c.pre THEN {} ELSE {"text"})
                    \cup (IF c.e = "enc" THEN (IF c.raw # want.raw THEN {"padded"} ELSE {}) \cup (IF c.n # c.off + Len(want.raw) THEN {"length"} ELSE {})
                          ELSE (IF c.p # want.p THEN {"text"} ELSE {})))
    IN  [dev |-> dev, props |-> {"C26"}, exp |-> IF want.ok THEN "ok" ELSE "error", tag |-> c.e \o "/" \o c.res]
=============================================================================
