----------------------------- MODULE StoresGen -----------------------------
(* StoresMC with the commands which led to each state; see SessionGen.      *)
EXTENDS StoresMC, Json

VARIABLE path

GenInit == Init /\ path = <<>>
GenDo(c) == LET a == Step(W, c)
            IN  /\ Do(c)
                /\ path' = Append(path, c)
                /\ PrintT("CMD " \o ToJson([path |-> path, c |-> c, ok |-> a.ok /\ a.W # W]))
GenNext == \E c \in Cmds : GenDo(c)
GenSpec == GenInit /\ [][GenNext]_<<vars, path>>
State == W
=============================================================================
