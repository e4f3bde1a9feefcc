-------------------------------- MODULE EnumTape -------------------------------
(***************************************************************************)
(* How far a rule has to look.  The proving simulator runs a tape whose     *)
(* original blocks are numbered from the head outwards, and asks afterwards *)
(* how many blocks of either side the run depended on, and whether it went  *)
(* over the end of the tape.  Here every cell knows the original block it   *)
(* comes from (0: written since), and need, the true extent, grows when     *)
(*   - the head comes upon a cell of an original block,                     *)
(*   - a block an original cell belongs to grows,                           *)
(*   - a rule asks for the length of a block an original cell belongs to.   *)
(* The code may look further than that, but never less far.                 *)
(*                                                                          *)
(* A record: t0 = [l, h, r] in blocks; ops, a sequence of                   *)
(*   ["s", shift, color, skip, off, edges] or ["g", side, pos, 0, off,      *)
(*   edges]; off and edges are what the code reports after it.              *)
(***************************************************************************)
EXTENDS Extent, Json, IOUtils

Recs == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES i, l, t, need, over, verdict

vars == <<i, l, t, need, over, verdict>>

rec == Recs[i]

Init ==
  /\ i \in 1 .. Len(Recs)
  /\ l = 1
  /\ t = <<Tagged(Recs[i].t0[1], 0, 1), Recs[i].t0[2],
           Tagged(Recs[i].t0[3], 1, 1)>>
  /\ need = <<0, 0>>
  /\ over = <<0, 0>>
  /\ verdict = "run"

Op == rec.ops[l]

After ==
  LET o == Op IN
  IF o[1] = "s"
  THEN LET ahead == IF o[2] = 1 THEN t[3] ELSE t[1]
           k == 1 + IF o[4] = 1 THEN Run(ahead, t[2]) ELSE 0 IN
       Times(<<t, need, over>>, o[2], o[3], k)
  ELSE <<t, TouchAll(need, Block(IF o[2] = 1 THEN t[3] ELSE t[1], o[3])),
         over>>

Clause ==
  LET a == After
      o == Op IN
  IF o[5][1] < a[2][1] \/ o[5][2] < a[2][2]
  THEN "a block the run depended on is left out"
  ELSE IF o[6][1] < a[3][1] \/ o[6][2] < a[3][2]
  THEN "the end of the tape was used, unnoticed"
  ELSE IF o[5][1] > Len(rec.t0[1]) \/ o[5][2] > Len(rec.t0[3])
  THEN "more blocks than there are"
  ELSE "ok"

Take ==
  /\ verdict = "run"
  /\ l <= Len(rec.ops)
  /\ Clause = "ok"
  /\ l' = l + 1
  /\ LET a == After IN t' = a[1] /\ need' = a[2] /\ over' = a[3]
  /\ UNCHANGED <<i, verdict>>

Decide ==
  /\ verdict = "run"
  /\ LET v == IF l > Len(rec.ops) THEN "ok"
              ELSE IF Clause = "ok" THEN "run" ELSE Clause IN
       /\ v # "run"
       /\ verdict' = v
       /\ PrintT(<<"V", i, v, l>>)
  /\ UNCHANGED <<i, l, t, need, over>>

Next == Take \/ Decide

Spec == Init /\ [][Next]_vars
===============================================================================
