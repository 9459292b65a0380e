------------------------------- MODULE Stores -------------------------------
(***************************************************************************)
(* The built-in stores and the records which a caller has in hand.         *)
(*                                                                         *)
(*   W.S   the stores: each has maps for sessions, groups, pre-keys,       *)
(*         signed pre-keys and identities, and what it was made with       *)
(*   W.H   session records in hand, W.G group records in hand, by name     *)
(*   W.given   those which a store has been given: they are not changed    *)
(*         any more, except by loading into the same name                  *)
(***************************************************************************)
EXTENDS Records

Put(f, k, v) == (k :> v) @@ f
Drop(f, k) == [x \in DOMAIN f \ {k} |-> f[x]]
Get(f, k) == IF k \in DOMAIN f THEN Some(f[k]) ELSE None

NewStore(kp, reg) == [kp |-> kp, reg |-> reg, sess |-> <<>>, grp |-> <<>>, pre |-> <<>>, sgn |-> <<>>, ids |-> <<>>]

\* Which map an operation is about
MapOf(e) == CASE e \in {"sload", "sstore"} -> "sess"
              [] e \in {"gload", "gstore"} -> "grp"
              [] e \in {"pload", "pstore", "pdel"} -> "pre"
              [] e \in {"nload", "nstore"} -> "sgn"
              [] OTHER -> "ids"

\* One step: c is the command.  Gives the world afterwards, whether the call
\* succeeds, and the value it gives (None, or Some).
Apply(W, c) ==
    LET done(w, v) == [W |-> w, ok |-> TRUE, val |-> v]
        m == MapOf(c.e)
        held == Get(W.S[c.s][m], c.k)
    IN  CASE c.e = "sload" -> done(IF held = None THEN W ELSE [W EXCEPT !.H = Put(@, c.h, held[1]), !.given = @ \ {c.h}], held)
          [] c.e = "gload" -> done(IF held = None THEN W ELSE [W EXCEPT !.G = Put(@, c.h, held[1]), !.given = @ \ {c.h}], held)
          [] c.e = "sstore" -> done([W EXCEPT !.S[c.s].sess = Put(@, c.k, W.H[c.h]), !.given = @ \cup {c.h}], None)
          [] c.e = "gstore" -> done([W EXCEPT !.S[c.s].grp = Put(@, c.k, W.G[c.h]), !.given = @ \cup {c.h}], None)
          [] c.e \in {"pload", "nload", "iload"} -> done(W, held)
          [] c.e \in {"pstore", "nstore"} -> done([W EXCEPT !.S[c.s][m] = Put(@, c.k, c.x)], None)
          [] c.e = "pdel" -> done([W EXCEPT !.S[c.s].pre = Drop(@, c.k)], None)
          \* true: another key was known for the address
          [] c.e = "istore" -> done([W EXCEPT !.S[c.s].ids = Put(@, c.k, c.x)], Some(held # None /\ held # Some(c.x)))
          [] c.e = "itrust" -> done(W, Some(held = None \/ held = Some(c.x)))

Other(W, c) ==
    LET done(w, v) == [W |-> w, ok |-> TRUE, val |-> v]
    IN  CASE c.e = "iclear" -> done([W EXCEPT !.S[c.s].ids = <<>>], None)
          [] c.e = "kp" -> done(W, Some(W.S[c.s].kp))
          [] c.e = "reg" -> done(W, Some(W.S[c.s].reg))
          \* session records
          [] c.e = "new" -> done([W EXCEPT !.H = Put(@, c.h, IF c.x = None THEN NewRecord ELSE [NewRecord EXCEPT !.cur = Some(NewState(c.x[1], c.lid, c.rid))]), !.given = @ \ {c.h}], None)
          [] c.e = "copy" ->      \* a record made of the bytes of another's current state
                IF W.H[c.from].cur = None THEN [W |-> W, ok |-> FALSE, val |-> None]
                ELSE done([W EXCEPT !.H = Put(@, c.h, [NewRecord EXCEPT !.cur = W.H[c.from].cur]), !.given = @ \ {c.h}], None)
          [] c.e = "chg" ->
                IF W.H[c.h].cur = None THEN [W |-> W, ok |-> FALSE, val |-> None]
                ELSE LET r == Change(W.H[c.h].cur[1], c)
                     IN  [W |-> [W EXCEPT !.H[c.h].cur = Some(r.st)], ok |-> r.ok, val |-> r.val]
          [] c.e = "arch" -> done([W EXCEPT !.H[c.h] = Archive(@)], None)
          [] c.e = "promo" -> done([W EXCEPT !.H[c.h] = Promote(@, NewState(c.x, c.lid, c.rid))], None)
          [] c.e = "set" -> done([W EXCEPT !.H[c.h].cur = IF c.x = None THEN None ELSE Some(NewState(c.x[1], c.lid, c.rid))], None)
          [] c.e = "old" ->       \* an archived state, read back, becomes the current one
                done([W EXCEPT !.H[c.h] = IF c.i \in 1..Len(@.old) THEN PromoteOld(@, c.i, @.old[c.i]) ELSE @], None)
          [] c.e = "has" -> done(W, Some(HasState(W.H[c.h], c.ver, c.x)))
          [] c.e = "look" -> done(W, Some(W.H[c.h]))
          \* group records
          [] c.e = "gnew" -> done([W EXCEPT !.G = Put(@, c.h, <<>>), !.given = @ \ {c.h}], None)
          [] c.e = "gchg" ->
                LET r == GroupChange(W.G[c.h], c)
                IN  [W |-> [W EXCEPT !.G[c.h] = r.g], ok |-> r.ok, val |-> r.val]
          [] c.e = "glook" -> done(W, Some(W.G[c.h]))

StoreOps == {"sload", "gload", "sstore", "gstore", "pload", "nload", "iload", "pstore", "nstore", "pdel", "istore", "itrust"}
Step(W, c) == IF c.e \in StoreOps THEN Apply(W, c) ELSE Other(W, c)

\* The entries of stores which a command may change: <<store, map, key>>
Target(W, c) ==
    IF c.e \in {"sstore", "gstore", "pstore", "nstore", "pdel", "istore"} THEN {<<c.s, MapOf(c.e), c.k>>}
    ELSE IF c.e = "iclear" THEN {<<c.s, "ids", k>> : k \in DOMAIN W.S[c.s].ids} ELSE {}
=============================================================================
