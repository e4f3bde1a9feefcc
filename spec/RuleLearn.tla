------------------------------- MODULE RuleLearn -------------------------------
(***************************************************************************)
(* What a rule is remembered with.  The prover remembers a rule when the    *)
(* machine, in state q on a tape t0, is about to come back to q on a tape   *)
(* that differs in the lengths of some blocks.  Here the machine makes that *)
(* round, cell by cell, and every cell knows the block of t0 it comes from  *)
(* (Extent.tla).  When it is back, the window of the rule must take in      *)
(* everything the round depended on, whatever other rules were used to      *)
(* prove it.                                                                *)
(*                                                                          *)
(* A record: p, q, t0 = [l, h, r] in blocks, rule = [[side, pos, kind, a,   *)
(* b]...] (kind "p": n becomes n + a; "m": a * n + b), win = [l, r, le, re] *)
(* with the blocks as [color, single], and H.                               *)
(***************************************************************************)
EXTENDS Extent, Json, IOUtils

Recs == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES i, c, need, over, n, verdict

vars == <<i, c, need, over, n, verdict>>

rec == Recs[i]

(* c = <<state, tape>>, tape = <<left, scan, right>> in tagged cells.      *)
Init ==
  /\ i \in 1 .. Len(Recs)
  /\ c = << Recs[i].q, <<Tagged(Recs[i].t0[1], 0, 1), Recs[i].t0[2],
                         Tagged(Recs[i].t0[3], 1, 1)>> >>
  /\ need = <<0, 0>>
  /\ over = <<0, 0>>
  /\ n = 0
  /\ verdict = "run"

Instr(q, h) ==
  IF q < Len(rec.p) /\ h < Len(rec.p[q + 1]) THEN rec.p[q + 1][h + 1]
  ELSE <<>>

RECURSIVE Trim(_)
Trim(s) ==
  IF s = <<>> THEN <<>>
  ELSE IF s[Len(s)] = 0 THEN Trim(SubSeq(s, 1, Len(s) - 1)) ELSE s

Colors(cells) == Trim([x \in 1 .. Len(cells) |-> cells[x][1]])

Change(side, pos, count) ==
  LET ops == {x \in 1 .. Len(rec.rule) :
                rec.rule[x][1] = side /\ rec.rule[x][2] = pos - 1} IN
  IF ops = {} THEN count
  ELSE LET o == rec.rule[CHOOSE x \in ops : TRUE] IN
    IF o[3] = "p" THEN count + o[4] ELSE o[4] * count + o[5]

RECURSIVE After(_, _, _)
After(bs, side, pos) ==
  IF bs = <<>> THEN <<>>
  ELSE [x \in 1 .. Change(side, pos, Head(bs)[2]) |-> Head(bs)[1]]
       \o After(Tail(bs), side, pos + 1)

Back ==
  /\ n > 0
  /\ c[1] = rec.q
  /\ c[2][2] = rec.t0[2]
  /\ Colors(c[2][1]) = Trim(After(rec.t0[1], 0, 1))
  /\ Colors(c[2][3]) = Trim(After(rec.t0[3], 1, 1))

Prefix(w, bs) ==
  /\ Len(w) <= Len(bs)
  /\ \A x \in 1 .. Len(w) :
       /\ w[x][1] = bs[x][1]
       /\ (w[x][2] = 1) = (bs[x][2] = 1)

Clause ==
  LET w == rec.win IN
  IF ~Prefix(w[1], rec.t0[1]) \/ ~Prefix(w[2], rec.t0[3])
     \/ (w[3] = 1 /\ Len(w[1]) # Len(rec.t0[1]))
     \/ (w[4] = 1 /\ Len(w[2]) # Len(rec.t0[3]))
  THEN "the rule does not fit the tape it was proved on"
  ELSE IF Back THEN
    IF Len(w[1]) < need[1] \/ Len(w[2]) < need[2]
    THEN "a block the round depended on is not in the window"
    ELSE IF w[3] < over[1] \/ w[4] < over[2]
    THEN "the end of the tape is not in the window"
    ELSE "ok"
  ELSE IF Instr(c[1], c[2][2]) = <<>> THEN "the machine does not come back"
  ELSE IF n >= rec.H THEN "beyond"
  ELSE "go"

Step ==
  /\ verdict = "run"
  /\ Clause = "go"
  /\ LET o == Instr(c[1], c[2][2])
         z == One(c[2], need, over, o[2], o[1]) IN
       /\ c' = <<o[3], z[1]>>
       /\ need' = z[2]
       /\ over' = z[3]
  /\ n' = n + 1
  /\ UNCHANGED <<i, verdict>>

Decide ==
  /\ verdict = "run"
  /\ Clause # "go"
  /\ verdict' = Clause
  /\ PrintT(<<"V", i, Clause, n>>)
  /\ UNCHANGED <<i, c, need, over, n>>

Next == Step \/ Decide

Spec == Init /\ [][Next]_vars
===============================================================================
