---------------------------- MODULE ConcurrentMC ----------------------------
(* Every interleaving of the accesses of operations by several devices.    *)
EXTENDS Concurrent
CONSTANTS Steps,      \* operations of each device
          Some        \* kinds of operations tried

VARIABLES own, scratch, run, done
vars == <<own, scratch, run, done>>

Idle == <<>>
Init == /\ own = [d \in Devices |-> <<>>]
        /\ scratch = 0
        /\ run = [d \in Devices |-> Idle]
        /\ done = [d \in Devices |-> <<>>]

Begin(d) ==
    /\ run[d] = Idle /\ Len(done[d]) < Steps
    /\ \E k \in Some, v \in Values :
         run' = [run EXCEPT ![d] = <<[k |-> k, v |-> v, todo |-> Program(k, d, v), open |-> FALSE, x |-> 0, o |-> <<>>]>>]
    /\ UNCHANGED <<own, scratch, done>>

\* An access starts ...
Enter(d) ==
    /\ run[d] # Idle /\ run[d][1].todo # <<>> /\ ~run[d][1].open
    /\ run' = [run EXCEPT ![d][1].open = TRUE]
    /\ UNCHANGED <<own, scratch, done>>

\* ... and ends, when what it reads has been read, or is there for others.
Leave(d) ==
    /\ run[d] # Idle /\ run[d][1].todo # <<>> /\ run[d][1].open
    /\ LET r == run[d][1]
           a == r.todo[1]
           x == CASE a.loc[1] = "value" -> a.loc[2]
                  [] a.loc = Scratch /\ ~a.w -> scratch
                  [] OTHER -> r.x
           o == IF a.loc = Own(d) /\ ~a.w THEN own[d] ELSE r.o
       IN  /\ run' = [run EXCEPT ![d][1] = [r EXCEPT !.todo = Tail(@), !.open = FALSE, !.x = x, !.o = o]]
           /\ own' = IF a.w /\ a.loc = Own(d) THEN [own EXCEPT ![d] = Stores(r.k, r.x, r.o)] ELSE own
           /\ scratch' = IF a.w /\ a.loc = Scratch THEN r.x ELSE scratch
    /\ UNCHANGED done

End(d) ==
    /\ run[d] # Idle /\ run[d][1].todo = <<>>
    /\ done' = [done EXCEPT ![d] = Append(@, [k |-> run[d][1].k, v |-> run[d][1].v, y |-> Yields(run[d][1].k, run[d][1].x, run[d][1].o)])]
    /\ run' = [run EXCEPT ![d] = Idle]
    /\ UNCHANGED <<own, scratch>>

Next == \E d \in Devices : Begin(d) \/ Enter(d) \/ Leave(d) \/ End(d)
Spec == Init /\ [][Next]_vars

----------------------------------------------------------------------------
\* C28: nothing is written while another operation accesses it
NoConflict ==
    \A d, e \in Devices :
        d # e /\ run[d] # Idle /\ run[e] # Idle /\ run[d][1].open /\ run[e][1].open
        => ~Conflict(run[d][1].todo[1], run[e][1].todo[1])

\* C28: and every device does what it would have done alone
RECURSIVE Alone(_, _)
Alone(cmds, o) ==
    IF cmds = <<>> THEN [ys |-> <<>>, own |-> o]
    ELSE LET c == cmds[1]
             rest == Alone(Tail(cmds), IF c.k \in Stateful THEN Stores(c.k, c.v, o) ELSE o)
         IN  [rest EXCEPT !.ys = <<Yields(c.k, c.v, IF c.k \in Stateful THEN o ELSE <<>>)>> \o @]
AsAlone ==
    \A d \in Devices :
        LET a == Alone(done[d], <<>>)
        IN  /\ [i \in 1..Len(done[d]) |-> done[d][i].y] = a.ys
            /\ run[d] = Idle => own[d] = a.own
=============================================================================
