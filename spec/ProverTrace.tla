------------------------------ MODULE ProverTrace ------------------------------
(***************************************************************************)
(* A run of the proving simulator, row by row as it displays itself: every  *)
(* row is a configuration, and whether the simulator got from one row to    *)
(* the next by one instruction, by a sweep over a block or by applying a    *)
(* rule for any number of times, the machine of TM.tla must come from the   *)
(* one to the other by steps of its own (silent here).                      *)
(*                                                                          *)
(* A record: p, rows, from and H.  A row is <<step, state, left, scan,       *)
(* right>> with left and right sequences of <<color, count>>, nearest       *)
(* first, and step -1 where none is displayed.  The machine starts on the   *)
(* blank tape, or (from) where the first row has it when only a later part  *)
(* of a long run is looked at; steps are then counted from that row.        *)
(***************************************************************************)
EXTENDS TM, Json, IOUtils

Recs == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES i, l, c, n, verdict

vars == <<i, l, c, n, verdict>>

rec == Recs[i]

RECURSIVE Expand(_)
Expand(bs) ==
  IF bs = <<>> THEN <<>>
  ELSE [x \in 1 .. Head(bs)[2] |-> Head(bs)[1]] \o Expand(Tail(bs))

(* A row is written the way it should be: neighbouring blocks differ, no
   block is empty, and the last block on a side is not blank.              *)
Canonical(bs) ==
  /\ \A x \in 1 .. Len(bs) : bs[x][2] >= 1
  /\ \A x \in 1 .. Len(bs) - 1 : bs[x][1] # bs[x + 1][1]
  /\ bs # <<>> => bs[Len(bs)][1] # 0

Row == rec.rows[l]

Config(r) == <<r[2], Trim(Expand(r[3])), r[4], Trim(Expand(r[5]))>>

Init ==
  /\ i \in 1 .. Len(Recs)
  /\ l = 1
  /\ c = IF rec.from THEN Config(rec.rows[1]) ELSE Init0
  /\ n = 0
  /\ verdict = "run"

Ends(d) == Undefined(rec.p, d) \/ SpinsOut(rec.p, d)

(* Steps until the row is met, the machine ends, or k of them.             *)
RECURSIVE Go(_, _, _, _)
Go(d, m, target, k) ==
  IF d = target \/ k = 0 \/ Ends(d) THEN <<d, m>>
  ELSE Go(Step(rec.p, d), m + 1, target, k - 1)

Malformed == ~Canonical(Row[3]) \/ ~Canonical(Row[5])

AtRow == c = Config(Row)

Clause ==
  IF Malformed THEN "the tape is not in its normal form"
  ELSE IF AtRow THEN
    IF Row[1] >= 0 /\ Row[1] # n THEN "wrong step count" ELSE "match"
  ELSE IF Row[1] >= 0 /\ n >= Row[1] THEN "not there at that step"
  ELSE IF Ends(c) THEN "the machine never gets there"
  ELSE IF n >= rec.H THEN "beyond"
  ELSE "go"

(* The row has been met; the next one is due.  A step is taken at once when
   the next row comes later but looks the same (cannot happen in a halting
   run, where no configuration comes twice).                               *)
Match ==
  /\ verdict = "run"
  /\ l <= Len(rec.rows)
  /\ Clause = "match"
  /\ l' = l + 1
  /\ UNCHANGED <<i, c, n, verdict>>

Silent ==
  /\ verdict = "run"
  /\ l <= Len(rec.rows)
  /\ Clause = "go"
  /\ LET g == Go(c, n, Config(Row), 40) IN c' = g[1] /\ n' = g[2]
  /\ UNCHANGED <<i, l, verdict>>

Decide ==
  /\ verdict = "run"
  /\ LET v == IF l > Len(rec.rows) THEN "ok" ELSE Clause IN
       /\ v \notin {"match", "go"}
       /\ verdict' = v
       /\ PrintT(<<"V", i, v, l, n>>)
  /\ UNCHANGED <<i, l, c, n>>

Next == Match \/ Silent \/ Decide

Spec == Init /\ [][Next]_vars
===============================================================================
