----------------------------- MODULE PaddingMC ------------------------------
(* All strings up to a length: padding and unpadding are inverse, and        *)
(* exactly the padded strings are accepted.                                  *)
EXTENDS Padding
CONSTANTS Alphabet, MaxLen
VARIABLE s
Init == s = <<>>
Next == Len(s) < MaxLen /\ \E x \in Alphabet : s' = Append(s, x)
Spec == Init /\ [][Next]_s
InvInverse == Unpad(Pad(s)).ok /\ Unpad(Pad(s)).p = s
InvShortest == Len(Pad(s)) % Block = 0 /\ Len(Pad(s)) > Len(s) /\ Len(Pad(s)) <= Len(s) + Block
InvOnly == Unpad(s).ok => Pad(Unpad(s).p) = s
InvPrefix == SubSeq(Pad(s), 1, Len(s)) = s
=============================================================================
