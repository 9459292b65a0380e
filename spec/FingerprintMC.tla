--------------------------- MODULE FingerprintMC ----------------------------
(* All pairs of views over small sets.                                      *)
EXTENDS Fingerprint

CONSTANTS Ids, Keys, Versions, Iterations
VARIABLE st

Views == [li : Ids, lk : Keys, ri : Ids, rk : Keys, ver : Versions, iter : Iterations]
Init == st = <<>>
Next == st = <<>> /\ \E v \in Views, w \in Views : st' = <<v, w>>
Spec == Init /\ [][Next]_st

Mirror(v, w) == v.li = w.ri /\ v.lk = w.rk /\ v.ri = w.li /\ v.rk = w.lk
Equal(v, w) == v.li = w.li /\ v.lk = w.lk /\ v.ri = w.ri /\ v.rk = w.rk
InvNumber == st # <<>> => LET v == st[1]  w == st[2] IN SameNumber(v, w) <=> v.iter = w.iter /\ (Mirror(v, w) \/ Equal(v, w))
InvCode == st # <<>> => LET v == st[1]  w == st[2] IN
              /\ Scan2(v, w) = Scan2(w, v)
              /\ (Scan2(v, w) = "match") <=> (v.ver = w.ver /\ v.iter = w.iter /\ Mirror(v, w))
              /\ Scan2(v, w) = "match" => SameNumber(v, w)

\* The encoding of numbers and codes
H(x) == [i \in 1..ShownSize |-> (x * i) % 256]
Sample == {H(0), H(1), H(7), H(255), [i \in 1..ShownSize |-> 255]}
ASSUME \A a, b \in Sample : Number(a, b) = Number(b, a) /\ Len(Number(a, b)) = 60 /\ (a # b => Number(a, b) # Number(a, a))
ASSUME Digits([i \in 1..30 |-> IF i = 5 THEN 9 ELSE IF i = 9 THEN 1 ELSE IF i = 13 THEN 2 ELSE 0]) =
       <<0, 0, 0, 0, 9>> \o <<0, 0, 2, 5, 6>> \o <<3, 1, 0, 7, 2>> \o [i \in 1..15 |-> 0]
ASSUME Digits([i \in 1..30 |-> 255])[5] = 5     \* 2^40 - 1 = 1099511627775
ASSUME \A a, b \in Sample, v \in {<<0, 0, 0, 0>>, <<2, 1, 0, 255>>} :
          LET l == SubSeq(a, 1, 30)  r == SubSeq(b, 1, 30)
          IN  /\ ParseCode(EncCode(v, l, r)) = [ok |-> TRUE, ver |-> v, local |-> l, remote |-> r]
              /\ Compare(v, l, r, EncCode(v, r, l)) = "match"
              /\ (l # r => Compare(v, l, r, EncCode(v, l, r)) = "no")
              /\ Compare(v, l, r, EncCode(<<1, 1, 1, 1>>, r, l)) = "err"
=============================================================================
