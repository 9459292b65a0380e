------------------------------ MODULE Padding -------------------------------
(* PKCS #7 padding, and what message encryption does around it.  Strings    *)
(* of bytes are sequences; what is specified is the padded plaintext, the   *)
(* block cipher itself is trusted.                                          *)
EXTENDS Integers, Sequences, FiniteSets

CONSTANTS Block, KeySizes, SureKeySize

Bad == [ok |-> FALSE]
Pad(p) == LET n == Block - (Len(p) % Block) IN p \o [i \in 1..n |-> n]
Unpad(r) ==
    IF Len(r) = 0 \/ Len(r) % Block # 0 THEN Bad
    ELSE LET n == r[Len(r)]
         IN  IF n \notin 1..Block \/ \E i \in (Len(r) - n + 1)..Len(r) : r[i] # n THEN Bad
             ELSE [ok |-> TRUE, p |-> SubSeq(r, 1, Len(r) - n)]

\* Encryption: the padded plaintext which the ciphertext must hold.
Encrypts(key, iv, p) == IF key \notin KeySizes \/ iv # Block THEN Bad ELSE [ok |-> TRUE, raw |-> Pad(p)]
\* Decryption of n bytes which hold raw (meaningless unless n is whole blocks).
Decrypts(key, iv, n, raw) ==
    IF key \notin KeySizes \/ iv # Block \/ n = 0 \/ n % Block # 0 THEN Bad ELSE Unpad(raw)
=============================================================================
