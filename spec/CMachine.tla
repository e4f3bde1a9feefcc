-------------------------------- MODULE CMachine --------------------------------
(***************************************************************************)
(* The C programs: the search machines, which read programs one after the   *)
(* other and print a line for each that ends in time, and the programs the  *)
(* tools generate.  Both end a run when the tape is blank; a search machine *)
(* also when it would run off, in one state, over cells it has never        *)
(* visited, and when the program goes to state H; a generated program goes  *)
(* to H by printing 1 and moving right where an instruction is missing.     *)
(*                                                                          *)
(* A record: kind, p, H (steps to run for), limit (of a search machine) and *)
(*   "search"     out <<>> or <<steps, marks>>                              *)
(*   "generated"  out <<steps, marks, head, lo, cells>>: the cells from lo  *)
(*                on, counted from the start, and where the head is         *)
(***************************************************************************)
EXTENDS TM, Json, IOUtils

Recs == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES i, c, n, pos, lo, hi, verdict

vars == <<i, c, n, pos, lo, hi, verdict>>

r == Recs[i]
HALT == 7

Ins == LET x == InstrAt(r.p, c) IN
       IF x = <<>> /\ r.kind = "generated" THEN <<1, 1, HALT>> ELSE x

Init ==
  /\ i \in 1 .. Len(Recs)
  /\ c = Init0
  /\ n = 0
  /\ pos = 0 /\ lo = 0 /\ hi = 0
  /\ verdict = "run"

Ended == St(c) = HALT \/ (n > 0 /\ IsBlank(c))

(* Seen to run off, at the edge of what has been visited.                  *)
RunsOff ==
  /\ r.kind = "search" /\ ~Ended
  /\ Scan(c) = 0 /\ Ins[3] = St(c)
  /\ pos = (IF Ins[2] = 1 THEN hi ELSE lo)

Mn(a, b) == IF a < b THEN a ELSE b
Mx(a, b) == IF a > b THEN a ELSE b

RECURSIVE Go(_, _, _, _, _, _)
Go(d, k, at, l, h, left) ==
  LET x == LET y == InstrAt(r.p, d) IN
           IF y = <<>> /\ r.kind = "generated" THEN <<1, 1, HALT>> ELSE y
  IN
  IF left = 0 \/ St(d) = HALT \/ (k > 0 /\ IsBlank(d))
     \/ (r.kind = "search" /\ Scan(d) = 0 /\ x[3] = St(d)
         /\ at = (IF x[2] = 1 THEN h ELSE l))
  THEN <<d, k, at, l, h>>
  ELSE LET at2 == IF x[2] = 1 THEN at + 1 ELSE at - 1 IN
       Go(Apply(d, x), k + 1, at2, Mn(l, at2), Mx(h, at2), left - 1)

Move ==
  /\ verdict = "run" /\ ~Ended /\ ~RunsOff /\ n < r.H
  /\ LET g == Go(c, n, pos, lo, hi, Mn(50, r.H - n)) IN
       c' = g[1] /\ n' = g[2] /\ pos' = g[3] /\ lo' = g[4] /\ hi' = g[5]
  /\ UNCHANGED <<i, verdict>>

(* The step counts a search machine may print; one of them takes the step
   before for the one at which a run is seen to run off in state B.        *)
Counts == IF RunsOff THEN {n, n + 1} ELSE {n}

CellAt(x) == IF x = pos THEN Scan(c)
             ELSE IF x > pos THEN (IF x - pos <= Len(Rt(c)) THEN Rt(c)[x - pos] ELSE 0)
             ELSE (IF pos - x <= Len(Lt(c)) THEN Lt(c)[pos - x] ELSE 0)

Search ==
  IF r.out = <<>>
  THEN IF \A k \in Counts : k < r.limit THEN "nothing is printed for a run that ends" ELSE "ok"
  ELSE IF r.out[1] \notin Counts THEN "a wrong number of steps is printed"
  ELSE IF r.out[1] >= r.limit THEN "printed beyond the limit"
  ELSE IF r.out[2] # Marks(c) THEN "a wrong number of marks is printed"
  ELSE "ok"

Generated ==
  IF r.out = <<>> THEN "the generated program does not end"
  ELSE IF r.out[1] # n THEN "the generated program takes a wrong number of steps"
  ELSE IF r.out[2] # Marks(c) THEN "the generated program counts marks wrongly"
  ELSE IF r.out[3] # pos THEN "the generated program ends at a wrong cell"
  ELSE IF \E k \in 1 .. Len(r.out[5]) : r.out[5][k] # CellAt(r.out[4] + k - 1)
       THEN "the generated program leaves a wrong tape"
  ELSE "ok"

(* Nothing ended it within H steps.                                        *)
Endless ==
  IF r.out = <<>> THEN (IF r.H >= r.limit THEN "ok" ELSE "beyond")
  ELSE IF r.out[1] <= r.H THEN "a run is said to end that does not"
  ELSE "beyond"

Decide ==
  /\ verdict = "run"
  /\ ~(~Ended /\ ~RunsOff /\ n < r.H)
  /\ verdict' = IF Ended \/ RunsOff
                THEN (IF r.kind = "search" THEN Search ELSE Generated)
                ELSE Endless
  /\ PrintT(<<"V", i, verdict', n>>)
  /\ UNCHANGED <<i, c, n, pos, lo, hi>>

Next == Move \/ Decide
===============================================================================
