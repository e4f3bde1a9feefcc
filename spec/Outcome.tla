-------------------------------- MODULE Outcome --------------------------------
(***************************************************************************)
(* Judges what a simulator of the repository says about programs started on *)
(* the blank tape.  Every record of the batch holds a program and a claim   *)
(* (the result the real code returned); one behaviour of this specification *)
(* per record runs the machine of TM.tla cell by cell and compares.         *)
(*                                                                          *)
(* A claim's fields:                                                        *)
(*   kind    what the code says the machine does:                           *)
(*             "undfnd"  reaches an instruction that is not defined         *)
(*             "spnout"  runs off over blank tape for ever, in one state    *)
(*             "infrul"  runs for ever, without spinning out                *)
(*             "forever" runs for ever, in whatever way                     *)
(*             "alive"   nothing final has happened within its steps        *)
(*   steps   the step it happens at, or -1 when the code did not count      *)
(*   atmost  TRUE: steps is only a lower bound on the true count            *)
(*   slot    for "undfnd", the state and color                              *)
(*   marks   nonblank cells at that moment, or -1                           *)
(*   blanks  sequence of <<state, step>>: tape blank, in that state, at     *)
(*           that step for the first time (step -1: not counted)            *)
(*   full    TRUE: blanks lists every such state up to the end of the run   *)
(*   H       number of steps the machine is run for                         *)
(***************************************************************************)
EXTENDS TM, Json, IOUtils

Recs == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES i, c, n, bl, verdict

vars == <<i, c, n, bl, verdict>>

rec == Recs[i]

Counted == rec.steps >= 0 /\ ~rec.atmost

Init ==
  /\ i \in 1 .. Len(Recs)
  /\ c = Init0
  /\ n = 0
  /\ bl = <<>>
  /\ verdict = "run"

(* b: <<state, step>> pairs of first blank moments so far.                *)
NoteBlank(b, c2, n2) ==
  IF IsBlank(c2) /\ ~\E k \in 1 .. Len(b) : b[k][1] = St(c2)
  THEN Append(b, <<St(c2), n2>>)
  ELSE b

BlankClause(b) ==
  IF \E x \in 1 .. Len(rec.blanks) : \A y \in 1 .. Len(b) :
        b[y][1] # rec.blanks[x][1]
     THEN "blank claimed in a state that never has a blank tape"
  ELSE IF \E x \in 1 .. Len(rec.blanks) : \E y \in 1 .. Len(b) :
        /\ b[y][1] = rec.blanks[x][1]
        /\ rec.blanks[x][2] >= 0
        /\ IF rec.atmost THEN rec.blanks[x][2] > b[y][2]
                         ELSE rec.blanks[x][2] # b[y][2]
     THEN "wrong step for a blank tape"
  ELSE IF rec.full /\ \E y \in 1 .. Len(b) : \A x \in 1 .. Len(rec.blanks) :
        b[y][1] # rec.blanks[x][1]
     THEN "blank tape not reported"
  ELSE "ok"

(* What is final about configuration d.                                    *)
Now(d) ==
  IF Undefined(rec.p, d) THEN "undfnd"
  ELSE IF SpinsOut(rec.p, d) THEN "spnout"
  ELSE "alive"

EndClause(d, b) ==
  IF rec.marks >= 0 /\ Marks(d) # rec.marks THEN "wrong marks"
  ELSE BlankClause(b)

Final(d, m, b) ==
  IF rec.kind = "undfnd" /\ <<St(d), Scan(d)>> # rec.slot
  THEN "wrong undefined slot"
  ELSE IF Counted /\ m # rec.steps THEN "wrong step count"
  ELSE IF rec.atmost /\ rec.steps > m THEN "more steps than the machine took"
  ELSE EndClause(d, b)

(* The machine has come to something final, and the claim is another.      *)
Past(d, m, b, clause) ==
  IF rec.kind # "alive" THEN clause
  ELSE IF ~Counted THEN "ok"
  ELSE IF m = rec.steps THEN EndClause(d, b)
  ELSE "the machine had stopped before that step"

(* The verdict that configuration d after m steps forces, or "run".        *)
Judge(d, m, b) ==
  LET now == Now(d)
      k   == rec.kind IN
  CASE now = k /\ k # "alive" -> Final(d, m, b)
    [] now = "spnout" /\ k = "forever" -> "ok"
    [] now = "undfnd" ->
         Past(d, m, b, "the machine halts at an undefined instruction")
    [] now = "spnout" -> Past(d, m, b, "the machine spins out")
    [] OTHER ->
         IF k = "infrul" /\ Counted /\ m = rec.steps
            /\ EndClause(d, b) # "ok"
         THEN EndClause(d, b)
         ELSE IF k \in {"undfnd", "spnout", "alive"} /\ Counted
                 /\ m >= rec.steps
         THEN IF k = "alive" THEN EndClause(d, b)
              ELSE "not in the claimed final situation at that step"
         ELSE IF m >= rec.H
         THEN IF k \in {"infrul", "forever", "alive"} THEN "ok" ELSE "beyond"
         ELSE "run"

(* Several steps of the machine make one transition, for speed: every one
   of them is judged.                                                      *)
CHUNK == 40

RECURSIVE Go(_, _, _, _)
Go(d, m, b, k) ==
  IF k = 0 \/ Judge(d, m, b) # "run" THEN <<d, m, b>>
  ELSE LET d2 == Step(rec.p, d) IN
       Go(d2, m + 1, NoteBlank(b, d2, m + 1), k - 1)

Move ==
  /\ verdict = "run"
  /\ Judge(c, n, bl) = "run"
  /\ LET g == Go(c, n, bl, CHUNK) IN
       /\ c' = g[1]
       /\ n' = g[2]
       /\ bl' = g[3]
  /\ UNCHANGED <<i, verdict>>

Decide ==
  /\ verdict = "run"
  /\ LET v == Judge(c, n, bl) IN
       /\ v # "run"
       /\ verdict' = v
       /\ PrintT(<<"V", i, v, n>>)
  /\ UNCHANGED <<i, c, n, bl>>

Next == Move \/ Decide

Spec == Init /\ [][Next]_vars
===============================================================================
