----------------------------- MODULE WireTrace ------------------------------
(* Checks what the library's parsers and builders did against Wire.         *)
EXTENDS Wire, Cases

KindOf(k) == CASE k = "idkey" -> "key" [] k = "uuidtext" -> "uuid" [] OTHER -> k
TypeOf(k) == CASE k = "signal" -> 2 [] k = "prekey" -> 3 [] k = "senderkey" -> 7 [] k = "plaintext" -> 8 [] OTHER -> 0
Shown == {"rk", "ctr", "ct", "opk", "base", "idk", "msg", "reg", "spk", "did", "cid", "it", "ck", "sk", "key"}

\* How fields which the library shows differ from those of a parsed message.
RECURSIVE FieldDev(_, _, _)
FieldDev(k, p, f) ==
    (IF f.type # TypeOf(k) THEN {"type"} ELSE {})
    \cup (IF f.ver # Version THEN {"version"} ELSE {})
    \cup {x \in Shown \cap DOMAIN p : ~Has(f, x) \/ f[x] # p[x]}
    \cup (IF Has(p, "inner") THEN {"inner " \o x : x \in FieldDev("signal", p.inner, f.inner)} ELSE {})

CaseDev(c, p) ==
    (IF c.same THEN {} ELSE {"buffer"})
    \cup (IF c.res = "panic" THEN {"panic"}
          ELSE IF ~p.ok THEN (IF c.res = "ok" THEN {"accepted"} ELSE {})
          ELSE IF c.res # "ok" THEN (IF p.loose THEN {} ELSE {"refused"})
          ELSE FieldDev(KindOf(c.kind), p, c.f) \cup (IF c.ser THEN {} ELSE {"bytes"}))

\* What was built is encoded as it should be, parses again, and the message
\* which was returned shows the same.
BuildDev(c, p) ==
    (IF c.same THEN {} ELSE {"buffer"})
    \cup (IF c.res # "ok" THEN {"notbuilt"}
          ELSE IF ~p.ok THEN {"malformed"}
          ELSE FieldDev(c.kind, p, c.cfg)
               \cup (IF Has(p, "pc") /\ p.pc # c.cfg.pc THEN {"pc"} ELSE {})
               \cup (IF c.b[1] # Version * 16 + Version THEN {"version"} ELSE {})
               \cup {"shown " \o x : x \in FieldDev(c.kind, p, c.acc)}
               \cup (IF c.again # "ok" THEN {"refused"} ELSE FieldDev(c.kind, p, c.re))
               \cup (IF c.auth THEN {} ELSE {"auth"}))

WireJudge(c) ==
    LET p == Parse(KindOf(c.kind), c.b)
        dev == IF c.e = "case" THEN CaseDev(c, p) ELSE BuildDev(c, p)
    IN  [dev |-> dev, props |-> {"C18"}, exp |-> IF p.ok THEN "parses" ELSE "error",
         tag |-> c.e \o "/" \o c.kind \o "/" \o c.res \o (IF p.ok /\ p.loose THEN "/loose" ELSE "")]
=============================================================================
