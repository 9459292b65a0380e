-------------------------------- MODULE Keys --------------------------------
(***************************************************************************)
(* Signatures and key agreement, symbolically: a private key is a name,    *)
(* its public key has the same name; signatures and secrets are terms.     *)
(* Byte strings are sequences.                                             *)
(***************************************************************************)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets, TLC

Bytes(parts) == FlattenSeq(parts)
Signature(k, parts) == [k |-> k, msg |-> Bytes(parts)]
\* The signature, changed somehow (unless mut is "none"), as one of key pub
\* over parts.
Verifies(sig, mut, pub, parts) == mut = "none" /\ sig.k = pub /\ sig.msg = Bytes(parts)

\* One key vouches for another: what it signs.
Alt(prefix, other) == <<prefix, other>>
Vouches(k, other, pub, claimed) == k = pub /\ other = claimed

\* Agreement of a private key with a public key.
Secret(k, pub) == {k, pub}

\* Public keys as bytes without their type: values below 2^255 - 19 are the
\* one encoding of their point; low orders give no secret.
Canonical(b) ==
    /\ b[32] < 128
    /\ ~(b[32] = 127 /\ (\A i \in 2..31 : b[i] = 255) /\ b[1] >= 237)
Top(x) == [i \in 1..32 |-> IF i = 1 THEN x ELSE IF i = 32 THEN 127 ELSE 255]
LowOrders == {[i \in 1..32 |-> 0], [i \in 1..32 |-> IF i = 1 THEN 1 ELSE 0], Top(236), Top(237), Top(238),
    <<224, 235, 122, 124, 59, 65, 184, 174, 22, 86, 227, 250, 241, 159, 196, 106, 218, 9, 141, 235, 156, 50, 177, 253, 134, 98, 5, 22, 95, 73, 184, 0>>,
    <<95, 156, 149, 188, 163, 80, 140, 36, 177, 208, 177, 85, 156, 131, 239, 91, 4, 68, 92, 196, 88, 28, 142, 134, 216, 34, 78, 221, 208, 159, 17, 87>>}
LowOrder(b) == [b EXCEPT ![32] = @ % 128] \in LowOrders
Clamped(b) == [b EXCEPT ![1] = @ - (@ % 8), ![32] = 64 + (@ % 64)]
=============================================================================
