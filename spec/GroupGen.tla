------------------------------ MODULE GroupGen ------------------------------
(* GroupMC with the commands which led to each state; see SessionGen. *)
EXTENDS GroupMC, Json

VARIABLE path

GenInit == Init /\ path = <<>>
GenDo(c) == LET a == Apply(W, c)
            IN  /\ W' = a.W
                /\ n' = IF a.exp = {"ok"} THEN Count(c) ELSE n
                /\ path' = IF a.exp = {"ok"} THEN Append(path, c) ELSE path
                /\ PrintT("CMD " \o ToJson([path |-> path, c |-> c, ok |-> a.exp = {"ok"}]))
GenNext == \E c \in Cmds : GenDo(c)
GenSpec == GenInit /\ [][GenNext]_<<W, n, path>>
State == <<W, n>>
=============================================================================
