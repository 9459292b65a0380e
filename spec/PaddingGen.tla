----------------------------- MODULE PaddingGen -----------------------------
(* Last blocks to be given to the library: every padding length, right and  *)
(* wrong in every single byte, after one block or none.                     *)
EXTENDS Padding, TLC, Json
CONSTANT Dirt
VARIABLE r
Full == {n \in 0..(Block + 1) : TRUE} \cup {255, 128}
Last(n) == [i \in 1..Block |-> IF i > Block - n THEN n ELSE 77]
Init == \E n \in Full, pre \in {0, Block} : r = [raw |-> [i \in 1..pre |-> 16] \o Last(n), at |-> 0]
Next == /\ r.at = 0
        /\ \E i \in 1..Len(r.raw), x \in Dirt : r' = [raw |-> [r.raw EXCEPT ![i] = x], at |-> i]
Show(x) == PrintT("CASE " \o ToJson([raw |-> x.raw]))
GenInit == Init /\ Show(r)
GenNext == Next /\ Show(r')
GenSpec == GenInit /\ [][GenNext]_r
=============================================================================
