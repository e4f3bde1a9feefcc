-------------------------------- MODULE InstrSeq --------------------------------
(***************************************************************************)
(* The order in which a run from the blank tape first comes to its          *)
(* instructions.  Each time it comes to a slot it has not used before, the  *)
(* real code lists the program as far as it is known by then, the step and  *)
(* the slot.  The list ends when all slots but one have been listed, when a *)
(* listed slot is undefined, or when the run spins out.                     *)
(***************************************************************************)
EXTENDS TM, Json, IOUtils

Recs == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES i, c, n, known, l, verdict

vars == <<i, c, n, known, l, verdict>>

r == Recs[i]
p == r.p
Slots == {<<q, h>> : q \in 0 .. Len(p) - 1, h \in 0 .. Len(p[1]) - 1}

Partial == [q \in 1 .. Len(p) |-> [h \in 1 .. Len(p[1]) |->
              IF <<q - 1, h - 1>> \in known THEN p[q][h] ELSE <<>>]]

Here == <<St(c), Scan(c)>>

Init ==
  /\ i \in 1 .. Len(Recs)
  /\ c = Init0
  /\ n = 0
  /\ known = {<<0, 0>>}
  /\ l = 1
  /\ verdict = "run"

End(v) == /\ verdict' = v
          /\ PrintT(<<"V", i, v, n>>)
          /\ UNCHANGED <<i, c, n, known, l>>

AllListed == l > Cardinality(Slots) - 1
ListEnds == l > Len(r.items)

(* A slot is come to for the first time.                                   *)
List ==
  /\ verdict = "run" /\ Here \notin known /\ ~AllListed
  /\ IF ListEnds THEN End("a slot the run comes to is not listed")
     ELSE LET x == r.items[l] IN
       IF x[3] # Here THEN End("another slot is listed than the one come to")
       ELSE IF x[2] # n THEN End("listed at a wrong step")
       ELSE IF x[1] # Partial THEN End("a wrong partial program is listed")
       ELSE /\ known' = known \cup {Here}
            /\ l' = l + 1
            /\ UNCHANGED <<i, c, n, verdict>>

Over == AllListed \/ (Here \in known /\ (Undefined(p, c) \/ SpinsOut(p, c)))

Move ==
  /\ verdict = "run" /\ ~Over /\ Here \in known /\ n < r.H
  /\ c' = Step(p, c)
  /\ n' = n + 1
  /\ UNCHANGED <<i, known, l, verdict>>

Stop ==
  /\ verdict = "run" /\ ~(Here \notin known /\ ~AllListed)
  /\ IF Over THEN End(IF ListEnds THEN "ok" ELSE "more is listed than is come to")
     ELSE n >= r.H /\ End(IF ListEnds THEN "beyond" ELSE "listed slots are not come to")

Next == List \/ Move \/ Stop
===============================================================================
