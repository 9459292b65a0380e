-------------------------------- MODULE Wire --------------------------------
(***************************************************************************)
(* The encoding of messages, byte by byte: Protocol Buffers (fields with   *)
(* tags, the last occurrence wins, unknown fields and fields of the wrong  *)
(* wire type are skipped), version bytes, trailing MACs and signatures,    *)
(* public keys and textual UUIDs.                                          *)
(*                                                                         *)
(* A byte string is a sequence of 0..255.  A 32-bit number is a sequence   *)
(* of its four bytes, least significant first.                             *)
(***************************************************************************)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets, TLC

CONSTANTS KeySize,   \* of a public key without its type
          MacSize, SigSize, ChainKeySize

Version == 3
KeyType == 5
PlaintextByte == 192

Bad == [ok |-> FALSE]

----------------------------------------------------------------------------
(* Protocol Buffers *)

\* The varint at position i of b, which ends at hi: the position after it and
\* its groups of seven bits.
Varint(b, i, hi) ==
    LET E == {k \in 0..9 : i + k <= hi /\ b[i + k] < 128 /\ \A j \in 0..(k - 1) : b[i + j] >= 128}
    IN  IF E = {} THEN Bad
        ELSE LET k == CHOOSE x \in E : TRUE
             IN  IF k = 9 /\ b[i + 9] > 1 THEN Bad
                 ELSE [ok |-> TRUE, n |-> i + k + 1, g |-> [j \in 1..10 |-> IF j <= k + 1 THEN (b[i + j - 1] % 128) ELSE 0]]

Low32(g) == <<g[1] + (g[2] % 2) * 128, g[2] \div 2 + (g[3] % 4) * 64, g[3] \div 4 + (g[4] % 8) * 32, g[4] \div 8 + (g[5] % 16) * 16>>
Zero(g, from) == \A j \in from..10 : g[j] = 0

\* A tag: its number (as groups, the first shifted) and wire type.  Numbers go
\* up to 2^29 - 1, those of fields within unknown groups up to 2^31 - 1.
Tag(b, i, hi, lim) ==
    LET v == Varint(b, i, hi)
    IN  IF ~v.ok THEN Bad
        ELSE LET num == <<v.g[1] \div 8, v.g[2], v.g[3], v.g[4], v.g[5]>>
             IN  IF ~Zero(v.g, 6) \/ v.g[5] >= lim \/ num = <<0, 0, 0, 0, 0>> THEN Bad
                 ELSE [ok |-> TRUE, n |-> v.n, num |-> num, w |-> v.g[1] % 8]

\* A length-delimited value: first and last position.
Bytes(b, i, hi) ==
    LET v == Varint(b, i, hi)
    IN  IF ~v.ok \/ ~Zero(v.g, 4) THEN Bad
        ELSE LET len == v.g[1] + v.g[2] * 128 + v.g[3] * 16384
             IN  IF v.n + len - 1 > hi THEN Bad ELSE [ok |-> TRUE, from |-> v.n, n |-> v.n + len]

\* The position after a value which is skipped, 0 if it is malformed.
RECURSIVE SkipValue(_, _, _, _, _), SkipGroup(_, _, _, _)
SkipValue(b, i, hi, num, w) ==
    CASE w = 0 -> LET v == Varint(b, i, hi) IN IF v.ok THEN v.n ELSE 0
      [] w = 1 -> IF i + 7 <= hi THEN i + 8 ELSE 0
      [] w = 2 -> LET v == Bytes(b, i, hi) IN IF v.ok THEN v.n ELSE 0
      [] w = 3 -> SkipGroup(b, i, hi, num)
      [] w = 5 -> IF i + 3 <= hi THEN i + 4 ELSE 0
      [] OTHER -> 0
SkipGroup(b, i, hi, num) ==
    LET t == Tag(b, i, hi, 64)
    IN  IF ~t.ok THEN 0
        ELSE IF t.w = 4 THEN (IF t.num = num THEN t.n ELSE 0)
        ELSE LET n == SkipValue(b, t.n, hi, t.num, t.w) IN IF n = 0 THEN 0 ELSE SkipGroup(b, n, hi, num)

\* The fields of b[i..hi] according to a schema, which gives "u" (32-bit
\* number), "b" (bytes) or "m" (a message with bytes as its field 1) for
\* numbers 1, 2, ....  f holds a sequence for every number: empty, or the
\* value; repeated messages are merged.
RECURSIVE Scan(_, _, _, _, _)
Scan(b, i, hi, schema, f) ==
    IF i > hi THEN [ok |-> TRUE, f |-> f]
    ELSE LET t == Tag(b, i, hi, 16)
             k == t.num[1]
         IN  IF ~t.ok THEN Bad
             ELSE IF Tail(t.num) = <<0, 0, 0, 0>> /\ k <= Len(schema) /\ schema[k] = "u" /\ t.w = 0
             THEN LET v == Varint(b, t.n, hi)
                  IN  IF ~v.ok THEN Bad ELSE Scan(b, v.n, hi, schema, [f EXCEPT ![k] = <<Low32(v.g)>>])
             ELSE IF Tail(t.num) = <<0, 0, 0, 0>> /\ k <= Len(schema) /\ schema[k] = "b" /\ t.w = 2
             THEN LET v == Bytes(b, t.n, hi)
                  IN  IF ~v.ok THEN Bad ELSE Scan(b, v.n, hi, schema, [f EXCEPT ![k] = <<SubSeq(b, v.from, v.n - 1)>>])
             ELSE IF Tail(t.num) = <<0, 0, 0, 0>> /\ k <= Len(schema) /\ schema[k] = "m" /\ t.w = 2
             THEN LET v == Bytes(b, t.n, hi)
                      p == Scan(b, v.from, v.n - 1, <<"b">>, <<IF f[k] = <<>> THEN <<>> ELSE f[k][1]>>)
                  IN  IF ~v.ok THEN Bad ELSE IF ~p.ok THEN Bad ELSE Scan(b, v.n, hi, schema, [f EXCEPT ![k] = <<p.f[1]>>])
             ELSE LET n == SkipValue(b, t.n, hi, t.num, t.w)
                  IN  IF n = 0 THEN Bad ELSE Scan(b, n, hi, schema, f)

Proto(b, lo, hi, schema) == Scan(b, lo, hi, schema, [k \in 1..Len(schema) |-> <<>>])

U(o) == IF o = <<>> THEN <<0, 0, 0, 0>> ELSE o[1]
B(o) == IF o = <<>> THEN <<>> ELSE o[1]

----------------------------------------------------------------------------
(* Keys and UUIDs *)

\* A public key: data after it is ignored.  A parser may as well refuse a key
\* with such data, and UUIDs in other than the usual notation: messages which
\* have those are loose.
IsKey(k) == Len(k) >= 1 + KeySize /\ k[1] = KeyType
LongKey(k) == IsKey(k) /\ Len(k) > 1 + KeySize
Key(k) == SubSeq(k, 1, 1 + KeySize)

Hex(c) == IF c \in 48..57 THEN c - 48 ELSE IF c \in 97..102 THEN c - 87 ELSE IF c \in 65..70 THEN c - 55 ELSE 16
Dash == 45
Urn == <<117, 114, 110, 58, 117, 117, 105, 100, 58>>
Lower(c) == IF c \in 65..90 THEN c + 32 ELSE c
Octets(t, at) ==
    IF \E i \in 1..16 : Hex(t[at[i]]) = 16 \/ Hex(t[at[i] + 1]) = 16 THEN Bad
    ELSE [ok |-> TRUE, id |-> [i \in 1..16 |-> Hex(t[at[i]]) * 16 + Hex(t[at[i] + 1])]]
Dashed(t) ==
    IF \E i \in {9, 14, 19, 24} : t[i] # Dash THEN Bad
    ELSE Octets(t, <<1, 3, 5, 7, 10, 12, 15, 17, 20, 22, 25, 27, 29, 31, 33, 35>>)
Uuid(t) ==
    CASE Len(t) = 36 -> Dashed(t)
      [] Len(t) = 45 -> IF \E i \in 1..9 : Lower(t[i]) # Urn[i] THEN Bad ELSE Dashed(SubSeq(t, 10, 45))
      [] Len(t) = 38 -> Dashed(SubSeq(t, 2, 37))
      [] Len(t) = 32 -> Octets(t, [i \in 1..16 |-> 2 * i - 1])
      [] OTHER -> Bad

----------------------------------------------------------------------------
(* Messages *)

Nibble(b) == b[1] \div 16

ParseSignal(b) ==
    IF Len(b) < 1 + MacSize \/ Nibble(b) # Version THEN Bad
    ELSE LET p == Proto(b, 2, Len(b) - MacSize, <<"b", "u", "u", "b">>)
         IN  IF ~p.ok \/ ~IsKey(B(p.f[1])) THEN Bad
             ELSE [ok |-> TRUE, rk |-> Key(B(p.f[1])), ctr |-> U(p.f[2]), pc |-> U(p.f[3]), ct |-> B(p.f[4]), loose |-> LongKey(B(p.f[1]))]

ParsePreKey(b) ==
    IF Len(b) < 1 \/ Nibble(b) # Version THEN Bad
    ELSE LET p == Proto(b, 2, Len(b), <<"u", "b", "b", "b", "u", "u">>)
         IN  IF ~p.ok \/ ~IsKey(B(p.f[2])) \/ ~IsKey(B(p.f[3])) THEN Bad
             ELSE LET s == ParseSignal(B(p.f[4]))
                  IN  IF ~s.ok THEN Bad
                      ELSE [ok |-> TRUE, opk |-> p.f[1], base |-> Key(B(p.f[2])), idk |-> Key(B(p.f[3])), msg |-> B(p.f[4]),
                            reg |-> U(p.f[5]), spk |-> U(p.f[6]), inner |-> s,
                            loose |-> LongKey(B(p.f[2])) \/ LongKey(B(p.f[3])) \/ s.loose]

ParseSenderKey(b) ==
    IF Len(b) < 1 + SigSize \/ Nibble(b) # Version THEN Bad
    ELSE LET p == Proto(b, 2, Len(b) - SigSize, <<"b", "u", "u", "b">>)
         IN  IF ~p.ok THEN Bad
             ELSE LET id == Uuid(B(p.f[1]))
                  IN  IF ~id.ok THEN Bad
                      ELSE [ok |-> TRUE, did |-> id.id, cid |-> U(p.f[2]), it |-> U(p.f[3]), ct |-> B(p.f[4]), loose |-> Len(B(p.f[1])) # 36]

ParseDistribution(b) ==
    IF Len(b) < 1 + 2 * KeySize \/ Nibble(b) # Version THEN Bad
    ELSE LET p == Proto(b, 2, Len(b), <<"b", "u", "u", "b", "b">>)
         IN  IF ~p.ok THEN Bad
             ELSE LET id == Uuid(B(p.f[1]))
                  IN  IF ~id.ok \/ Len(B(p.f[4])) # ChainKeySize \/ ~IsKey(B(p.f[5])) THEN Bad
                      ELSE [ok |-> TRUE, did |-> id.id, cid |-> U(p.f[2]), it |-> U(p.f[3]), ck |-> B(p.f[4]), sk |-> Key(B(p.f[5])),
                            loose |-> Len(B(p.f[1])) # 36 \/ LongKey(B(p.f[5]))]

ParsePlaintext(b) ==
    IF Len(b) < 1 \/ b[1] # PlaintextByte THEN Bad ELSE [ok |-> TRUE, ct |-> Tail(b), loose |-> FALSE]

ParseKey(b) == IF IsKey(b) THEN [ok |-> TRUE, key |-> Key(b), loose |-> LongKey(b)] ELSE Bad
ParseUuid(b) == LET u == Uuid(b) IN IF u.ok THEN [ok |-> TRUE, did |-> u.id, loose |-> Len(b) # 36] ELSE Bad

Parse(kind, b) ==
    CASE kind = "signal" -> ParseSignal(b)
      [] kind = "prekey" -> ParsePreKey(b)
      [] kind = "senderkey" -> ParseSenderKey(b)
      [] kind = "distribution" -> ParseDistribution(b)
      [] kind = "plaintext" -> ParsePlaintext(b)
      [] kind = "key" -> ParseKey(b)
      [] kind = "uuid" -> ParseUuid(b)

----------------------------------------------------------------------------
(* Encodings, for the properties of the specification itself *)

Enc7(n) == IF n < 128 THEN <<n>> ELSE <<(n % 128) + 128, n \div 128>>    \* up to 16383
Group(v, k) ==  \* the k-th group of seven bits of a 32-bit number
    CASE k = 1 -> v[1] % 128
      [] k = 2 -> v[1] \div 128 + (v[2] % 64) * 2
      [] k = 3 -> v[2] \div 64 + (v[3] % 32) * 4
      [] k = 4 -> v[3] \div 32 + (v[4] % 16) * 8
      [] k = 5 -> v[4] \div 16
EncU32(v) ==
    LET top == CHOOSE k \in 1..5 : (k = 1 \/ Group(v, k) # 0) /\ \A j \in (k + 1)..5 : Group(v, j) = 0
    IN  [k \in 1..top |-> Group(v, k) + (IF k < top THEN 128 ELSE 0)]
FieldU(k, v) == <<k * 8>> \o EncU32(v)
FieldB(k, v) == <<k * 8 + 2>> \o Enc7(Len(v)) \o v
Ver3 == <<Version * 16 + Version>>
HexOf(x) == IF x < 10 THEN 48 + x ELSE 87 + x
HexPair(o) == <<HexOf(o \div 16), HexOf(o % 16)>>
Cat(ss) == FlattenSeq(ss)
UuidText(id) ==
    LET part(i, j) == Cat([k \in 1..(j - i + 1) |-> HexPair(id[i + k - 1])])
    IN  part(1, 4) \o <<Dash>> \o part(5, 6) \o <<Dash>> \o part(7, 8) \o <<Dash>> \o part(9, 10) \o <<Dash>> \o part(11, 16)
EncSignal(m, mac) == Ver3 \o FieldB(1, m.rk) \o FieldU(2, m.ctr) \o FieldU(3, m.pc) \o FieldB(4, m.ct) \o mac
EncPreKey(m) ==
    Ver3 \o (IF m.opk = <<>> THEN <<>> ELSE FieldU(1, m.opk[1])) \o FieldB(2, m.base) \o FieldB(3, m.idk)
        \o FieldB(4, m.msg) \o FieldU(5, m.reg) \o FieldU(6, m.spk)
EncSenderKey(m, sig) == Ver3 \o FieldB(1, UuidText(m.did)) \o FieldU(2, m.cid) \o FieldU(3, m.it) \o FieldB(4, m.ct) \o sig
EncDistribution(m) == Ver3 \o FieldB(1, UuidText(m.did)) \o FieldU(2, m.cid) \o FieldU(3, m.it) \o FieldB(4, m.ck) \o FieldB(5, m.sk)
Encode(kind, m) ==
    CASE kind = "signal" -> EncSignal(m, [i \in 1..MacSize |-> 7])
      [] kind = "prekey" -> EncPreKey(m)
      [] kind = "senderkey" -> EncSenderKey(m, [i \in 1..SigSize |-> 7])
      [] kind = "distribution" -> EncDistribution(m)
=============================================================================
