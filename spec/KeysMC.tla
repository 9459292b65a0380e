------------------------------- MODULE KeysMC -------------------------------
(* All signatures over short messages in parts, and all claims about them.  *)
EXTENDS Keys

CONSTANTS Names, Pieces, MaxParts, Muts

VARIABLE c      \* a signature and a claim about it

Parts == UNION {[1..n -> Pieces] : n \in 0..MaxParts}
PieceSet == {<<>>, <<1>>, <<1, 2>>}
Prefix == <<255, 255>>
Code(k) == <<5, k>>
Init == c = <<>>
Pick ==
    \/ \E by \in Names, pub \in Names, parts \in Parts, claim \in Parts, mut \in Muts :
          /\ mut # "none" => by = pub /\ parts = claim
          /\ c' = [op |-> "ver", by |-> by, pub |-> pub, parts |-> parts, claim |-> claim, mut |-> mut]
    \/ \E by \in Names, pub \in Names, other \in Names, claimed \in Names, mut \in Muts :
          /\ mut # "none" => by = pub /\ other = claimed
          /\ c' = [op |-> "alt", by |-> by, pub |-> pub, other |-> other, claimed |-> claimed, mut |-> mut]
    \/ \E a, b \in Names : c' = [op |-> "dh", a |-> a, b |-> b]
Next == c = <<>> /\ Pick
Spec == Init /\ [][Next]_c

Is(op) == c # <<>> /\ c.op = op
Good == Verifies(Signature(c.by, c.parts), c.mut, c.pub, c.claim)
InvExact == Is("ver") => (Good <=> c.mut = "none" /\ c.by = c.pub /\ Bytes(c.parts) = Bytes(c.claim))
\* However the message is split
InvSplit == Is("ver") => \A q \in Parts : Bytes(q) = Bytes(c.claim) => Verifies(Signature(c.by, c.parts), c.mut, c.pub, q) = Good
\* A vouching signature is a signature over the prefix and the other key: it
\* binds both, in one direction.
InvAlt == Is("alt") =>
    LET s == Signature(c.by, Alt(Prefix, Code(c.other)))
    IN  Verifies(s, c.mut, c.pub, Alt(Prefix, Code(c.claimed))) <=> c.mut = "none" /\ Vouches(c.by, c.other, c.pub, c.claimed)
InvDh == Is("dh") => /\ Secret(c.a, c.b) = Secret(c.b, c.a)
                     /\ \A x, y \in Names : Secret(x, y) = Secret(c.a, c.b) => {x, y} = {c.a, c.b}
Full(x) == [i \in 1..32 |-> IF i = 1 THEN x ELSE IF i = 32 THEN 127 ELSE 255]
ASSUME Canonical(Full(236)) /\ ~Canonical(Full(237)) /\ ~Canonical(Full(255)) /\ ~Canonical([Full(0) EXCEPT ![32] = 128])
       /\ Canonical([i \in 1..32 |-> 0])
ASSUME \A b \in {Full(x) : x \in 0..255} : Clamped(Clamped(b)) = Clamped(b) /\ Clamped(b)[32] \in 64..127 /\ Clamped(b)[1] % 8 = 0
=============================================================================
