------------------------------ MODULE KeysGen -------------------------------
EXTENDS KeysMC, Json
GenNext == Next /\ PrintT("CASE " \o ToJson(c'))
GenSpec == Init /\ [][GenNext]_c
=============================================================================
