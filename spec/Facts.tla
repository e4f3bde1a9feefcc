--------------------------------- MODULE Facts ---------------------------------
(***************************************************************************)
(* What really happens to a program started on the blank tape within H      *)
(* steps: whether it comes to an undefined instruction, whether it spins    *)
(* out, when its tape is first blank, and when marks are first erased to    *)
(* leave it blank.  Every behaviour belongs to *)
(* one record of the batch; the fact is printed at its end, and the claims  *)
(* of the reasoners are compared with it.                                   *)
(***************************************************************************)
EXTENDS TM, Json, IOUtils

Recs == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES i, c, n, blank, erased, fact

vars == <<i, c, n, blank, erased, fact>>

Init ==
  /\ i \in 1 .. Len(Recs)
  /\ c = Init0
  /\ n = 0
  /\ blank = -1
  /\ erased = -1
  /\ fact = "run"

p == Recs[i].p

Ends(d) == Undefined(p, d) \/ SpinsOut(p, d)

RECURSIVE Go(_, _, _, _, _)
Go(d, m, b, e, k) ==
  IF k = 0 \/ Ends(d) THEN <<d, m, b, e>>
  ELSE LET d2 == Step(p, d)
           bl == IsBlank(d2) IN
       Go(d2, m + 1, IF b < 0 /\ bl THEN m + 1 ELSE b,
          IF e < 0 /\ bl /\ ~IsBlank(d) THEN m + 1 ELSE e, k - 1)

Move ==
  /\ fact = "run"
  /\ ~Ends(c)
  /\ n < Recs[i].H
  /\ LET g == Go(c, n, blank, erased, 50) IN
       c' = g[1] /\ n' = g[2] /\ blank' = g[3] /\ erased' = g[4]
  /\ UNCHANGED <<i, fact>>

Decide ==
  /\ fact = "run"
  /\ Ends(c) \/ n >= Recs[i].H
  /\ fact' = IF Undefined(p, c) THEN "undfnd"
             ELSE IF SpinsOut(p, c) THEN "spnout" ELSE "alive"
  /\ PrintT(<<"V", i, fact', n, St(c), Scan(c), Marks(c), blank,
              erased>>)
  /\ UNCHANGED <<i, c, n, blank, erased>>

Next == Move \/ Decide

Spec == Init /\ [][Next]_vars
===============================================================================
