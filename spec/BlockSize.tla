------------------------------- MODULE BlockSize -------------------------------
(***************************************************************************)
(* Which block size is suggested for a program.  The machine runs a number  *)
(* of cycles (a cycle sweeps over a whole block when the state stays and    *)
(* the next cells are the color that is scanned).  Where its tape has the   *)
(* most blocks, for the first time, one cycle on, the cells are looked at   *)
(* in pieces of k: a piece of the same k cells as the one after it need not *)
(* be written down again.  The smallest of the best k is suggested, k being *)
(* less than half the cells; 1 when the machine ends before, or there is    *)
(* nothing to choose from.                                                  *)
(*                                                                          *)
(* A record: p, cycles, got.                                                *)
(***************************************************************************)
EXTENDS TM, Json, IOUtils

Recs == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES i, c, n, most, best, verdict

vars == <<i, c, n, most, best, verdict>>

rec == Recs[i]

Init ==
  /\ i \in 1 .. Len(Recs)
  /\ c = Init0
  /\ n = 0
  /\ most = 0
  /\ best = Init0
  /\ verdict = "run"

(* Neighbouring cells of a side that differ, and the ends.                 *)
Blocks(s) ==
  IF s = <<>> THEN 0
  ELSE 1 + Cardinality({x \in 1 .. Len(s) - 1 : s[x] # s[x + 1]})

RECURSIVE Sweep(_, _, _)
Sweep(d, ins, h) ==
  LET e == Apply(d, ins)
      side == IF ins[2] = 1 THEN Rt(d) ELSE Lt(d) IN
  IF side # <<>> /\ Head(side) = h THEN Sweep(e, ins, h) ELSE e

Cycle(d) ==
  LET ins == InstrAt(rec.p, d) IN
  IF ins[3] = St(d) THEN Sweep(d, ins, Scan(d)) ELSE Apply(d, ins)

Ends == Undefined(rec.p, c) \/ SpinsOut(rec.p, c)

RECURSIVE Reverse(_)
Reverse(s) == IF s = <<>> THEN <<>> ELSE Append(Reverse(Tail(s)), Head(s))

Cells(d) == Reverse(Lt(d)) \o <<Scan(d)>> \o Rt(d)

Piece(t, at, k) == SubSeq(t, at + 1, at + k)

Size(t, k) ==
  Len(t) - k * Cardinality(
    {x \in 0 .. (Len(t) - 2 * k - 1) \div k :
       Piece(t, k * x, k) = Piece(t, k * x + k, k)})

Suggest(t) ==
  LET ks == 1 .. (Len(t) \div 2) - 1
      good == {k \in ks : \A j \in ks : Size(t, k) <= Size(t, j)} IN
  IF good = {} THEN 1 ELSE CHOOSE k \in good : \A j \in good : k <= j

Go ==
  /\ verdict = "run"
  /\ n < rec.cycles
  /\ ~Ends
  /\ LET b == Blocks(Lt(c)) + Blocks(Rt(c))
         d == Cycle(c) IN
       /\ c' = d
       /\ n' = n + 1
       /\ most' = IF b > most THEN b ELSE most
       /\ best' = IF b > most THEN d ELSE best
  /\ UNCHANGED <<i, verdict>>

Decide ==
  /\ verdict = "run"
  /\ n = rec.cycles \/ Ends
  /\ LET want == IF n < rec.cycles THEN 1 ELSE Suggest(Cells(best))
         v == IF want = rec.got THEN "ok"
              ELSE IF n < rec.cycles THEN "a size for a machine that ends"
              ELSE "not the best size" IN
       /\ verdict' = v
       /\ PrintT(<<"V", i, v, want, n>>)
  /\ UNCHANGED <<i, c, n, most, best>>

Next == Go \/ Decide

Spec == Init /\ [][Next]_vars
===============================================================================
