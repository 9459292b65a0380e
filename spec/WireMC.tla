------------------------------- MODULE WireMC -------------------------------
(***************************************************************************)
(* Messages put together from good, odd and broken fields.  A state is a   *)
(* version byte, a sequence of fields (indices of Tok) and a trailer.      *)
(*                                                                         *)
(* Mode "free": all sequences of at most MaxFields fields.  Mode "edit":   *)
(* the usual message with at most MaxEdits changes.                        *)
(***************************************************************************)
EXTENDS Wire

CONSTANTS Kind, Mode, MaxFields, MaxEdits

VARIABLE m      \* [ver, f, tr, n]

Fill(x, n) == [i \in 1..n |-> x]
K(x) == <<KeyType>> \o Fill(x, KeySize)
N(a, b, c, d) == <<a, b, c, d>>
Id1 == [i \in 1..16 |-> 16 * i + 8 - i]
Id2 == [i \in 1..16 |-> i]
Text1 == UuidText(Id1)
Upper(t) == [i \in 1..Len(t) |-> IF t[i] \in 97..102 THEN t[i] - 32 ELSE t[i]]
Plain(t) == Cat([i \in 1..16 |-> HexPair(t[i])])
Inner == EncSignal([rk |-> K(9), ctr |-> N(3, 0, 0, 0), pc |-> N(0, 0, 0, 0), ct |-> <<1, 2>>], Fill(6, MacSize))

\* Values of the fields by their role; the first is the usual one.
Vals(role) ==
    CASE role = "key" -> <<K(1), K(2), K(255), K(3) \o <<0>>, K(3) \o Fill(4, KeySize), Fill(5, KeySize), <<4>> \o Fill(1, KeySize),
                           <<>>, <<5>>, Fill(0, 1 + KeySize)>>
      [] role = "num" -> <<N(1, 0, 0, 0), N(0, 0, 0, 0), N(127, 0, 0, 0), N(128, 0, 0, 0), N(44, 1, 0, 0), N(255, 255, 255, 127),
                           N(0, 0, 0, 128), N(255, 255, 255, 255)>>
      [] role = "text" -> <<<<1, 2, 3>>, <<>>, <<0>>, Fill(200, 130), Fill(10, 16)>>
      [] role = "uuid" -> <<Text1, UuidText(Id2), Upper(Text1), Plain(Id1), Upper(Plain(Id2)), Urn \o Text1, Upper(Urn) \o Text1,
                            <<85, 82, 78, 58, 85, 85, 73, 68, 58>> \o Text1,
                            <<123>> \o Text1 \o <<125>>, <<40>> \o Text1 \o <<41>>, Id1, <<>>, Tail(Text1), Text1 \o <<48>>,
                            [Text1 EXCEPT ![9] = 48], [Text1 EXCEPT ![1] = 103], [Text1 EXCEPT ![36] = 64], [Text1 EXCEPT ![20] = 47],
                            [Text1 EXCEPT ![10] = 58], [Text1 EXCEPT ![14] = 95], [Plain(Id1) EXCEPT ![32] = 96], [Urn EXCEPT ![9] = 59] \o Text1, Fill(48, 37)>>
      [] role = "chain" -> <<Fill(8, ChainKeySize), Fill(0, ChainKeySize), <<>>, Fill(8, ChainKeySize - 1), Fill(8, ChainKeySize + 1)>>
      [] role = "inner" -> <<Inner, <<>>, Ver3, Tail(Inner), <<35>> \o Tail(Inner), <<63>> \o Tail(Inner), SubSeq(Inner, 1, Len(Inner) - 1 - MacSize),
                             Ver3 \o Fill(0, MacSize), Ver3 \o FieldB(1, <<5>>) \o Fill(6, MacSize), Ver3 \o FieldB(1, K(7)) \o Fill(6, MacSize)>>

Roles == CASE Kind = "signal" -> <<"key", "num", "num", "text">>
           [] Kind = "prekey" -> <<"num", "key", "key", "inner", "num", "num">>
           [] Kind = "senderkey" -> <<"uuid", "num", "num", "text">>
           [] Kind = "distribution" -> <<"uuid", "num", "num", "chain", "key">>
TrailSize == CASE Kind = "signal" -> MacSize [] Kind = "senderkey" -> SigSize [] OTHER -> 0

Field(k, role, v) == IF role = "num" THEN FieldU(k, v) ELSE FieldB(k, v)
Good == [k \in 1..Len(Roles) |-> Field(k, Roles[k], Vals(Roles[k])[1])]
\* Odd encodings of field k.
Odd(k) ==
    (IF Roles[k] = "num"
     THEN <<<<8 * k, 129, 128, 128, 128, 0>>, <<8 * k, 130, 128, 128, 128, 240, 255, 255, 255, 255, 1>>, <<8 * k, 128, 128, 128, 128, 128, 128, 128, 128, 128, 2>>,
            <<8 * k, 128, 128, 128, 128, 128, 128, 128, 128, 128, 128, 1>>, FieldB(k, <<1>>)>>
     ELSE <<<<8 * k + 2, 131, 0, 5, 1, 1>>, <<8 * k + 2, 130, 128, 0, 5, 1>>, FieldU(k, N(5, 0, 0, 0)), <<8 * k + 2, 255, 255, 255, 255, 15>>,
            <<8 * k + 2, 255, 255, 255, 255, 255, 255, 255, 255, 255, 1>>, <<8 * k + 2, 128, 128, 128, 128, 16>>>>)
    \o <<<<8 * k + 1>> \o Fill(5, 8), <<8 * k + 5>> \o Fill(5, 4), <<8 * k + 3>> \o Good[k] \o <<8 * k + 4>>, <<8 * k + 6>>, <<8 * k + 7, 0>>,
         <<8 * k + 128, 128, 0>> \o Tail(Good[k]), <<8 * k>>, <<8 * k + 2>>, <<8 * k + 128>>>>
Misc == LET n == Len(Roles) + 9 IN
    <<FieldU(n, N(1, 0, 0, 0)), FieldB(n, K(1)), <<130, 1, 1, 9>>, <<8 * (n % 16) + 1>> \o Fill(1, 8), <<8 * (n % 16) + 5>> \o Fill(1, 4),
      <<123>> \o Good[1] \o <<124>>, <<123, 115>> \o Good[1] \o <<116, 124>>, <<123, 115>> \o Good[1] \o <<124, 116>>, <<123>> \o Good[1],
      <<124>>, <<0, 1>>, <<2, 1, 1>>, <<248, 255, 255, 255, 15, 1>>, <<128, 128, 128, 128, 16, 1>>, <<123, 128, 128, 128, 128, 16, 1, 124>>,
      <<123, 248, 255, 255, 255, 63, 1, 124>>, <<123, 128, 128, 128, 128, 64, 1, 124>>, <<123, 124>>, <<251, 255, 255, 255, 15, 252, 255, 255, 255, 15>>,
      <<128, 128, 128, 128, 128, 1, 1>>, <<255, 255, 255, 255, 255, 255, 255, 255, 255, 1>>>>

ValTokDef == Cat([k \in 1..Len(Roles) |-> LET vs == Vals(Roles[k]) IN [i \in 1..Len(vs) |-> Field(k, Roles[k], vs[i])]])
\* Kept in registers, because TLC would compute them again and again.
ASSUME TLCSet(6, ValTokDef)
ValTok == TLCGet(6)
Least(a, b) == IF a < b THEN a ELSE b
TokDef == (IF Mode = "free" THEN SubSeq(Good, 1, Least(5, Len(Good))) ELSE Good) \o (IF Mode = "free" THEN Cat([k \in 1..Least(4, Len(Roles)) |-> <<Field(k, Roles[k], Vals(Roles[k])[2]), Odd(k)[1]>>]) \o SubSeq(Misc, 4, 9)
                ELSE ValTok \o Cat([k \in 1..Len(Roles) |-> Odd(k)]) \o Misc)
ASSUME TLCSet(7, TokDef)
Tok == TLCGet(7)

Trailers == <<Fill(6, TrailSize), <<>>, <<1>>, IF TrailSize > 0 THEN Fill(6, TrailSize - 1) ELSE <<1, 1>>>>
Versions == {51, 48, 63, 35, 67, 0, 19, 179, 255}

Bytes1(x) == IF x.ver = -1 THEN <<>> ELSE <<x.ver>> \o Cat([i \in 1..Len(x.f) |-> Tok[x.f[i]]]) \o Trailers[x.tr]

Init == m = IF Mode = "free" THEN [ver |-> 51, f |-> <<>>, tr |-> 1, n |-> 0]
            ELSE [ver |-> 51, f |-> [k \in 1..Len(Roles) |-> k], tr |-> 1, n |-> 0]
Edit ==
    /\ Mode = "edit" /\ m.n < MaxEdits
    /\ \/ \E v \in Versions \ {m.ver} : m' = [m EXCEPT !.ver = v, !.n = @ + 1]
       \/ \E t \in 1..Len(Trailers) : t # m.tr /\ m' = [m EXCEPT !.tr = t, !.n = @ + 1]
       \/ \E i \in 1..Len(m.f), t \in 1..Len(Tok) : m' = [m EXCEPT !.f[i] = t, !.n = @ + 1]
       \/ \E i \in 0..Len(m.f), t \in 1..Len(Tok) : m' = [m EXCEPT !.f = SubSeq(@, 1, i) \o <<t>> \o SubSeq(@, i + 1, Len(@)), !.n = @ + 1]
       \/ \E i \in 1..Len(m.f) : m' = [m EXCEPT !.f = SubSeq(@, 1, i - 1) \o SubSeq(@, i + 1, Len(@)), !.n = @ + 1]
       \/ \E i \in 1..(Len(m.f) - 1) : m' = [m EXCEPT !.f[i] = m.f[i + 1], !.f[i + 1] = m.f[i], !.n = @ + 1]
Free ==
    /\ Mode = "free"
    /\ \/ Len(m.f) < MaxFields /\ \E t \in 1..Len(Tok) : m' = [m EXCEPT !.f = Append(@, t)]
       \/ m.tr = 1 /\ \E t \in 1..Len(Trailers) : m' = [m EXCEPT !.tr = t]
Next == Edit \/ Free
Spec == Init /\ [][Next]_m
Same == Bytes1(m)     \* a view

----------------------------------------------------------------------------
(* What holds of the specification of parsers *)

P(x) == Parse(Kind, Bytes1(x))
\* What parses, parses the same when encoded again (with a usual envelope).
InvFixedPoint ==
    LET r == P(m)
        again == Parse(Kind, Encode(Kind, r))
    IN  r.ok => again = [r EXCEPT !.loose = again.loose]
InvHeader == P(m).ok => /\ Nibble(Bytes1(m)) = Version
                        /\ Len(Bytes1(m)) > TrailSize + (IF Kind = "prekey" THEN 3 * (1 + KeySize) + MacSize ELSE KeySize)
\* Fields which are not of the message do not matter, and of several the last counts.
ASSUME TLCSet(8, {t \in 1..Len(Tok) : \E i \in 1..Len(ValTok) : ValTok[i] = Tok[t]})
Known(t) == t \in TLCGet(8)
Number(t) == Tok[t][1] \div 8
Keep(x) == SelectSeq([i \in 1..Len(x.f) |-> <<i, x.f[i]>>],
                     LAMBDA e : Known(e[2]) /\ \A j \in (e[1] + 1)..Len(x.f) : Known(x.f[j]) => Number(x.f[j]) # Number(e[2]))
Clean(x) == [x EXCEPT !.f = [i \in 1..Len(Keep(x)) |-> Keep(x)[i][2]]]
InvLast == (P(m).ok /\ m.tr = 1 /\ \A i \in 1..Len(m.f) : Known(m.f[i]) \/ m.f[i] > Len(Tok) - 6) => P(Clean(m)).ok /\ P(Clean(m)) = P(m)

Num == {<<x, y, z, w>> : x \in {0, 1, 127, 128, 255}, y \in {0, 64, 255}, z \in {0, 31, 32}, w \in {0, 15, 16, 255}}
ASSUME \A n \in Num : Low32(Varint(EncU32(n), 1, Len(EncU32(n))).g) = n
ASSUME \A id \in {Id1, Id2} : Uuid(UuidText(id)).id = id
=============================================================================
