------------------------------ MODULE GroupBad ------------------------------
(* Faults, each of which replaces one operator of Group.                    *)
EXTENDS GroupMC

AdvanceNot(i, k) == i
SignedAny(s, m) == TRUE
SignedIgnoresKey(s, m) == m.ok
WithoutNot(skip, j) == skip
AfterNot(i) == i
SkipNot(skip, it, off, k) == skip
SkipAll(skip, it, off, k) == skip \o [i \in 1..k |-> [it |-> it + i - 1, off |-> off + i - 1]]
TopFirst(rec) == 1
ResetNot(W1, p, did) == W1
=============================================================================
