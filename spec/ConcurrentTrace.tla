--------------------------- MODULE ConcurrentTrace ---------------------------
(* What goroutines did at the same time, against the same done alone.       *)
(*  op: one operation, with what it yielded alone and at the same time as   *)
(*      others; kept: whether the values it shared are as they were         *)
(*  race: an access which the race detector found to conflict with another  *)
EXTENDS Cases

ConcJudge(c) ==
    CASE c.e = "op" ->
           [dev |-> (IF c.conc = c.alone THEN {} ELSE {"differs"}) \cup (IF c.kept THEN {} ELSE {"written"}),
            props |-> {"C28"}, exp |-> c.alone, tag |-> c.k \o "/" \o c.how]
      [] c.e = "race" ->
           [dev |-> IF c.a.w \/ c.b.w THEN {"race"} ELSE {}, props |-> {"C28"}, exp |-> "no conflict", tag |-> "race"]
=============================================================================
