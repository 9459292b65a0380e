----------------------------- MODULE SessionGen -----------------------------
(***************************************************************************)
(* SessionMC with the commands which led to each state, to be replayed     *)
(* against the library.  Every transition of the explored graph is printed *)
(* once, as the path to its source and the command.                        *)
(***************************************************************************)
EXTENDS SessionMC, Json, TLC

VARIABLE path   \* commands so far


GenInit == Init /\ path = <<>>

Note(c, exp) == PrintT("CMD " \o ToJson([path |-> path, c |-> c, ok |-> exp = {"ok"}]))

GenDo(c) == LET a == Apply(W, c)
            IN  /\ W' = a.W
                /\ n' = IF "ok" \in a.exp THEN Count(c) ELSE n
                /\ path' = IF a.exp = {"ok"} THEN Append(path, c) ELSE path
                /\ Note(c, a.exp)

GenNext == \E c \in Cmds : GenDo(c)
GenSpec == GenInit /\ [][GenNext]_<<W, n, path>>
State == <<W, n>>
=============================================================================
