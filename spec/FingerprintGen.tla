--------------------------- MODULE FingerprintGen ---------------------------
(* Scanned codes put together from good, odd and broken fields, for a code  *)
(* of version 2 with local 1, 1, ... and remote 2, 2, ....                  *)
EXTENDS Fingerprint, Json
CONSTANT MaxFields
VARIABLE f
L == [i \in 1..CodeSize |-> 1]
R == [i \in 1..CodeSize |-> 2]
V == <<2, 0, 0, 0>>
Sub(k, c) == FieldB(k, FieldB(1, c))
Tok == <<FieldU(1, V), Sub(2, R), Sub(3, L), Sub(2, L), Sub(3, R), FieldU(1, <<1, 0, 0, 0>>), FieldU(1, <<2, 0, 0, 1>>),
         Sub(2, Tail(R)), Sub(3, Append(L, 1)), Sub(3, [L EXCEPT ![CodeSize] = 0]), Sub(2, [R EXCEPT ![1] = 0]),
         FieldB(2, <<>>), FieldB(3, <<>>), FieldB(2, FieldU(1, V)), FieldB(2, <<10, 40, 1>>), FieldB(3, FieldB(2, L) \o FieldB(1, L)),
         FieldB(2, FieldB(1, L) \o FieldB(1, R)), FieldB(1, V), FieldU(2, V), FieldB(9, R), <<8>>, <<12>>, FieldB(2, FieldB(1, <<>>))>>
Init == f = <<>>
Next == Len(f) < MaxFields /\ \E t \in 1..Len(Tok) : f' = Append(f, t)
Text(x) == Cat([i \in 1..Len(x) |-> Tok[x[i]]])
Show(x) == PrintT("CASE " \o ToJson([ver |-> V, local |-> L, remote |-> R, b |-> Text(x)]))
GenInit == Init /\ Show(f)
GenNext == Next /\ Show(f')
GenSpec == GenInit /\ [][GenNext]_f
=============================================================================
