----------------------------- MODULE Concurrent -----------------------------
(***************************************************************************)
(* Devices which are used from different goroutines at the same time.      *)
(*                                                                         *)
(* A device has stores of its own.  Values (bundles, messages, keys, byte  *)
(* strings, ...) may be used by several devices at once.  An operation is  *)
(* not atomic: it is a sequence of accesses to locations, each of which    *)
(* takes time.  Reads lists, for each kind of operation, what it reads;    *)
(* whatever is not the device's own it must only read.                     *)
(*                                                                         *)
(* Leak stands for state of the library which all operations use without   *)
(* synchronisation: "none" as it should be, "scratch" for a buffer which   *)
(* every operation passes its value through, "cache" for a value which     *)
(* keeps what was computed from it first.                                  *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

CONSTANTS Devices, Values, Leak

Stateful == {"bundle", "encrypt", "decrypt", "first", "archive", "distribute", "process", "gencrypt", "gdecrypt"}
Stateless == {"parse", "sign", "agree", "keys", "compare", "fingerprint", "cipher", "prekey"}
Kinds == Stateful \cup Stateless

Own(d) == <<"own", d>>
Val(v) == <<"value", v>>
Scratch == <<"scratch", 0>>
Cache(v) == <<"cache", v>>

R(x) == [loc |-> x, w |-> FALSE]
U(x) == [loc |-> x, w |-> TRUE]

\* the accesses of an operation of kind k by device d with value v
Program(k, d, v) ==
    (IF k \in Stateful THEN <<R(Own(d))>> ELSE <<>>)
    \o <<R(Val(v))>>
    \o (CASE Leak = "none" -> <<>>
          [] Leak = "scratch" -> <<U(Scratch), R(Scratch)>>
          [] Leak = "cache" -> <<R(Cache(v)), U(Cache(v))>>)
    \o (IF k \in Stateful THEN <<U(Own(d))>> ELSE <<>>)

\* What an operation yields, and leaves in the device's stores, when nothing
\* else happens: x what it takes for its value, own what the device stored.
Yields(k, x, own) == <<k, x, own>>
Stores(k, x, own) == IF k \in Stateful THEN Append(own, <<k, x>>) ELSE own

\* Two accesses at the same time conflict if one of them writes.
Conflict(a, b) == a.loc = b.loc /\ (a.w \/ b.w)
=============================================================================
