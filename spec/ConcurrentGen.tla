---------------------------- MODULE ConcurrentGen ----------------------------
(* Rounds: what each of several goroutines does at the same time, and       *)
(* whether they do it with the same value.                                  *)
EXTENDS Concurrent, Json
CONSTANT Rest   \* kinds which are tried in threes

VARIABLE r
Order == <<"bundle", "encrypt", "decrypt", "first", "archive", "distribute", "process", "gencrypt", "gdecrypt",
           "parse", "sign", "agree", "keys", "compare", "fingerprint", "cipher", "prekey">>
N == Len(Order)
Show(ks) == PrintT("ROUND " \o ToJson([kinds |-> [i \in 1..Len(ks) |-> Order[ks[i]]]]))
Init == r = <<>>
Next == /\ Len(r) < 3
        /\ \E i \in 1..N :
             /\ r # <<>> => r[Len(r)] <= i
             /\ Len(r) = 2 => {Order[r[1]], Order[r[2]], Order[i]} \subseteq Rest
             /\ r' = Append(r, i)
             /\ Len(r') >= 2 => Show(r')
Spec == Init /\ [][Next]_r
=============================================================================
