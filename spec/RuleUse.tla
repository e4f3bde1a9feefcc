-------------------------------- MODULE RuleUse --------------------------------
(***************************************************************************)
(* The memory of the prover: the rules it has proved, and the tapes it uses *)
(* them on.  A rule is remembered for a state and with a window: the color  *)
(* scanned and, on either side, the blocks its proof depended on, each as   *)
(* <<color, single>> (single: the block was one cell long), and whether the *)
(* proof came upon the end of the tape there.  It fits a tape that looks    *)
(* the same through the window.                                             *)
(*                                                                          *)
(* A record is a sequence of events:                                        *)
(*   ["add", q, h, l, r, le, re]  the rule is remembered; the rules of a    *)
(*                                record are numbered from 1                *)
(*   ["ask", q, h, l, r, got]     what the prover took from its memory: the *)
(*                                numbers it may have been, or [0] (none)   *)
(***************************************************************************)
EXTENDS Naturals, Integers, Sequences, TLC, Json, IOUtils

Recs == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES i, l, mem, verdict

vars == <<i, l, mem, verdict>>

Events == Recs[i].ev

Init ==
  /\ i \in 1 .. Len(Recs)
  /\ l = 1
  /\ mem = <<>>
  /\ verdict = "run"

SideFits(window, end, side) ==
  /\ Len(window) <= Len(side)
  /\ end = 1 => Len(window) = Len(side)
  /\ \A x \in 1 .. Len(window) : window[x] = side[x]

Fits(rule, q, h, left, right) ==
  /\ rule.q = q
  /\ rule.h = h
  /\ SideFits(rule.l, rule.le, left)
  /\ SideFits(rule.r, rule.re, right)

(* The first rule that fits, or 0.                                         *)
RECURSIVE First(_, _)
First(k, e) ==
  IF k > Len(mem) THEN 0
  ELSE IF Fits(mem[k], e[2], e[3], e[4], e[5]) THEN k
  ELSE First(k + 1, e)

Got(e) == {e[6][x] : x \in 1 .. Len(e[6])}

Clause ==
  LET e == Events[l] IN
  IF e[1] = "add" THEN "ok"
  ELSE LET f == First(1, e) IN
    IF f \in Got(e) THEN "ok"
    ELSE IF Got(e) = {0} THEN "a rule that fits is not used"
    ELSE IF f = 0 THEN "a rule is used on a tape it does not fit"
    ELSE IF \E g \in Got(e) \ {-1} :
              Fits(mem[g], e[2], e[3], e[4], e[5])
    THEN "an earlier rule fits"
    ELSE "a rule is used that does not fit, and another one does"

Add ==
  /\ verdict = "run"
  /\ l <= Len(Events)
  /\ Events[l][1] = "add"
  /\ LET e == Events[l] IN
       mem' = Append(mem, [q |-> e[2], h |-> e[3], l |-> e[4], r |-> e[5],
                           le |-> e[6], re |-> e[7]])
  /\ l' = l + 1
  /\ UNCHANGED <<i, verdict>>

Ask ==
  /\ verdict = "run"
  /\ l <= Len(Events)
  /\ Events[l][1] = "ask"
  /\ Clause = "ok"
  /\ l' = l + 1
  /\ UNCHANGED <<i, mem, verdict>>

Decide ==
  /\ verdict = "run"
  /\ LET v == IF l > Len(Events) THEN "ok"
              ELSE IF Clause = "ok" THEN "run" ELSE Clause IN
       /\ v # "run"
       /\ verdict' = v
       /\ PrintT(<<"V", i, v, l>>)
  /\ UNCHANGED <<i, l, mem>>

Next == Add \/ Ask \/ Decide

Spec == Init /\ [][Next]_vars
===============================================================================
