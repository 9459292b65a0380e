---------------------------- MODULE Fingerprint -----------------------------
(***************************************************************************)
(* Safety numbers.  A view is what one user computes a fingerprint from:   *)
(* both identifiers and identity keys, a version and an iteration count.   *)
(* The iterated hash of an identifier and a key is opaque and injective.   *)
(***************************************************************************)
EXTENDS Wire

CONSTANTS MinIterations, MaxIterations, ShownSize, CodeSize

Hash(id, key, iter) == <<id, key, iter>>
Local(v) == Hash(v.li, v.lk, v.iter)
Remote(v) == Hash(v.ri, v.rk, v.iter)
Valid(v) == v.iter \in MinIterations..MaxIterations

\* Both displayed numbers are the same: the same two hashes in any order.
SameNumber(v, w) == <<Local(v), Remote(v)>> \in {<<Local(w), Remote(w)>>, <<Remote(w), Local(w)>>}
\* v's user scans w's code: "err", "match" or "no".
Scan2(v, w) == IF v.ver # w.ver THEN "err"
               ELSE IF Local(v) = Remote(w) /\ Remote(v) = Local(w) THEN "match" ELSE "no"

----------------------------------------------------------------------------
(* The number and the code, given the hashes as bytes *)

Chunk(h, c) ==
    LET F[i \in 0..5] == IF i = 0 THEN 0 ELSE (F[i - 1] * 256 + h[5 * c + i]) % 100000
    IN  F[5]
Digits5(n) == <<n \div 10000, (n \div 1000) % 10, (n \div 100) % 10, (n \div 10) % 10, n % 10>>
Digits(h) == Cat([c \in 1..6 |-> Digits5(Chunk(h, c - 1))])
LessSeq(a, b) == \E i \in 1..Len(a) : a[i] < b[i] /\ \A j \in 1..(i - 1) : a[j] = b[j]
Number(h1, h2) == LET a == Digits(h1)  b == Digits(h2) IN IF LessSeq(a, b) THEN a \o b ELSE b \o a

ParseCode(b) ==
    LET p == Proto(b, 1, Len(b), <<"u", "m", "m">>)
    IN  IF ~p.ok THEN Bad
        ELSE [ok |-> TRUE, ver |-> U(p.f[1]), local |-> IF p.f[2] = <<>> THEN <<>> ELSE B(p.f[2][1]), remote |-> IF p.f[3] = <<>> THEN <<>> ELSE B(p.f[3][1])]
Code(ver, h1, h2) == [ok |-> TRUE, ver |-> ver, local |-> SubSeq(h1, 1, CodeSize), remote |-> SubSeq(h2, 1, CodeSize)]
EncCode(ver, l, r) == FieldU(1, ver) \o FieldB(2, FieldB(1, l)) \o FieldB(3, FieldB(1, r))

\* A code which holds ver, l and r is compared with scanned bytes.
Compare(ver, l, r, scanned) ==
    LET p == ParseCode(scanned)
    IN  IF ~p.ok THEN "err" ELSE IF p.ver # ver THEN "err" ELSE IF p.local = r /\ p.remote = l THEN "match" ELSE "no"
=============================================================================
