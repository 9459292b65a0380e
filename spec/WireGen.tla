------------------------------- MODULE WireGen ------------------------------
(* The messages of WireMC, printed to be given to the library's parsers.    *)
EXTENDS WireMC, Json

GenInit == Init /\ PrintT("CASE " \o ToJson([kind |-> Kind, b |-> Bytes1(m)]))
GenNext == Next /\ PrintT("CASE " \o ToJson([kind |-> Kind, b |-> Bytes1(m')]))
GenSpec == GenInit /\ [][GenNext]_m
=============================================================================
