------------------------------- MODULE Cases -------------------------------
(* Reads recorded lines which can each be judged alone.                     *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils

\* Judge(c): [dev: what is wrong, props: the properties which that breaks,
\* exp: what should have been, tag: what kind of case it was].
CONSTANT Judge(_)

Trace == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES l, cov
vars == <<l, cov>>

Has(c, f) == f \in DOMAIN c
Fld(c, f, dflt) == IF Has(c, f) THEN c[f] ELSE dflt
Count(f, k) == IF k \in DOMAIN f THEN [f EXCEPT ![k] = @ + 1] ELSE (k :> 1) @@ f

Init0 == l = 1 /\ cov = <<>>
Consume ==
    /\ l <= Len(Trace)
    /\ l' = l + 1
    /\ LET c == Trace[l]
           j == Judge(c)
       IN  /\ cov' = Count(cov, j.tag)
           /\ IF j.dev = {} THEN TRUE
              ELSE PrintT("DEV " \o ToJson([line |-> l, h |-> l, dev |-> j.dev, props |-> j.props, e |-> c.e,
                                            exp |-> j.exp, got |-> Fld(c, "res", ""), tag |-> j.tag]))
Finish == /\ l = Len(Trace) + 1
          /\ PrintT("END " \o ToJson([lines |-> Len(Trace), histories |-> Len(Trace), cov |-> cov]))
          /\ l' = l + 1 /\ UNCHANGED cov
Spec == Init0 /\ [][Consume \/ Finish]_vars
Seen == l
=============================================================================
