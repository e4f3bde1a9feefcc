---------------------------------- MODULE Tree ----------------------------------
(***************************************************************************)
(* The generator of programs.  A program starts as A0 = 1RB on the blank    *)
(* tape.  Whenever its run comes to a slot that is not filled yet, the slot *)
(* gets an instruction over the states and colors met so far and the first  *)
(* one not met; the run goes on from there.  A program is a leaf when all   *)
(* its slots (but one, when it is to halt) are filled, or when its run      *)
(* blanks the tape, spins out or does not come to an open slot within lim   *)
(* cycles, a sweep in one state being one cycle.  Leaves that never use the *)
(* last state or the last color are left out.                               *)
(*                                                                          *)
(* A record: states, colors, halt, lim and                                  *)
(*   mode "all"    every leaf is printed                                    *)
(*        "pick"   the leaf at the end of the choices ch is printed         *)
(*        "walk"   p is to be a leaf; the verdict is printed                *)
(***************************************************************************)
EXTENDS TM, Json, IOUtils

Recs == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES i, p, c, filled, phase

vars == <<i, p, c, filled, phase>>

rec == Recs[i]

Total == rec.states * rec.colors - (IF rec.halt THEN 1 ELSE 0)

Min(a, b) == IF a < b THEN a ELSE b

Slots == {<<q, h>> : q \in 0 .. rec.states - 1, h \in 0 .. rec.colors - 1}

FilledSlots == {s \in Slots : Instr(p, s[1], s[2]) # <<>>}

SetMax(S) == CHOOSE x \in S : \A y \in S : y <= x

(* States and colors met: in a filled slot, in the slot at hand, or in an
   instruction.                                                            *)
AvailStates ==
  Min(rec.states,
      2 + SetMax({St(c)} \cup {s[1] : s \in FilledSlots}
                 \cup {Instr(p, s[1], s[2])[3] : s \in FilledSlots}))
AvailColors ==
  Min(rec.colors,
      2 + SetMax({Scan(c)} \cup {s[2] : s \in FilledSlots}
                 \cup {Instr(p, s[1], s[2])[1] : s \in FilledSlots}))

OptionAt(k) ==      \* k-th option, from 0
  LET ns == AvailStates
  IN <<k \div (2 * ns), (k \div ns) % 2, k % ns>>
Count == AvailColors * 2 * AvailStates

Put(pr, q, h, ins) == [pr EXCEPT ![q + 1][h + 1] = ins]

RECURSIVE Sweep(_, _, _, _)
Sweep(d, q, h, ins) ==
  LET d2 == Apply(d, ins) IN
  IF ins[3] = q /\ Scan(d2) = h THEN Sweep(d2, q, h, ins) ELSE d2

(* <<"open", configuration>> or <<"leaf">>.                                *)
RECURSIVE Run(_, _, _)
Run(pr, d, k) ==
  IF k = 0 THEN <<"leaf">>
  ELSE IF Undefined(pr, d) THEN <<"open", d>>
  ELSE IF SpinsOut(pr, d) THEN <<"leaf">>
  ELSE LET d2 == Sweep(d, St(d), Scan(d), InstrAt(pr, d)) IN
       IF IsBlank(d2) THEN <<"leaf">> ELSE Run(pr, d2, k - 1)

Start(r) ==
  Put([q \in 1 .. r.states |-> [h \in 1 .. r.colors |-> <<>>]],
      0, 0, <<1, 1, 1>>)

Init ==
  /\ i \in 1 .. Len(Recs)
  /\ p = Start(Recs[i])
  /\ c = Apply(Init0, <<1, 1, 1>>)
  /\ filled = 1
  /\ phase = "open"

FillWith(ins) ==
  LET p2 == Put(p, St(c), Scan(c), ins)
      r == IF filled + 1 = Total THEN <<"leaf">> ELSE Run(p2, c, rec.lim)
  IN /\ p' = p2
     /\ filled' = filled + 1
     /\ phase' = r[1]
     /\ c' = IF r[1] = "open" THEN r[2] ELSE Init0
     /\ UNCHANGED i

FillAny ==
  /\ phase = "open" /\ rec.mode = "all"
  /\ \E k \in 0 .. Count - 1 : FillWith(OptionAt(k))

FillPick ==
  /\ phase = "open" /\ rec.mode = "pick"
  /\ LET x == rec.ch[filled] IN
     \* every third choice among the last few, which bring in new states
     FillWith(OptionAt(IF x % 3 = 0 THEN Count - 1 - ((x \div 3) % 4)
                       ELSE x % Count))

FillWalk ==
  /\ phase = "open" /\ rec.mode = "walk"
  /\ LET ins == Instr(rec.p, St(c), Scan(c)) IN
     IF ins = <<>> THEN /\ phase' = "a slot the run comes to was left open"
                        /\ UNCHANGED <<i, p, c, filled>>
     ELSE IF ~(ins[1] < AvailColors /\ ins[3] < AvailStates)
     THEN /\ phase' = "an instruction out of order"
          /\ UNCHANGED <<i, p, c, filled>>
     ELSE FillWith(ins)

Uses ==
  /\ \E s \in FilledSlots : Instr(p, s[1], s[2])[3] = rec.states - 1
  /\ \E s \in FilledSlots : Instr(p, s[1], s[2])[1] = rec.colors - 1

Letters == <<"A", "B", "C", "D", "E", "F", "G", "H">>
ShowInstr(x) ==
  IF x = <<>> THEN "..."
  ELSE ToString(x[1]) \o (IF x[2] = 1 THEN "R" ELSE "L") \o Letters[x[3] + 1]
RECURSIVE ShowRow(_), ShowProg(_)
ShowRow(row) ==
  IF Len(row) = 1 THEN ShowInstr(row[1])
  ELSE ShowInstr(Head(row)) \o " " \o ShowRow(Tail(row))
ShowProg(pr) ==
  IF Len(pr) = 1 THEN ShowRow(pr[1])
  ELSE ShowRow(Head(pr)) \o "  " \o ShowProg(Tail(pr))

AsRows(pr) == [q \in 1 .. Len(pr) |-> [h \in 1 .. Len(pr[q]) |-> pr[q][h]]]

Leaf ==
  /\ phase = "leaf"
  /\ phase' = "done"
  /\ IF rec.mode = "walk"
     THEN PrintT(<<"V", i, IF p # rec.p THEN "filled beyond its leaf"
                           ELSE IF ~Uses THEN "last state or color unused"
                           ELSE "ok">>)
     ELSE IF Uses THEN PrintT(<<"V", i, ShowProg(p)>>)
     ELSE IF rec.mode = "pick" THEN PrintT(<<"V", i, "">>)
     ELSE TRUE
  /\ UNCHANGED <<i, p, c, filled>>

Bad ==
  /\ phase \notin {"open", "leaf", "done"}
  /\ PrintT(<<"V", i, phase>>)
  /\ phase' = "done"
  /\ UNCHANGED <<i, p, c, filled>>

Next == FillAny \/ FillPick \/ FillWalk \/ Leaf \/ Bad

(***************************************************************************)
(* Normal form, at every state of the exhaustive enumeration: the states    *)
(* and colors that occur are an initial segment, and at most one slot of a  *)
(* program that is to halt stays open only when all others are filled.      *)
(***************************************************************************)
InOrder ==
  LET qs == {0} \cup {Instr(p, s[1], s[2])[3] : s \in FilledSlots}
      hs == {0} \cup {Instr(p, s[1], s[2])[1] : s \in FilledSlots}
  IN /\ filled <= Total
     /\ filled = Cardinality(FilledSlots)
     /\ phase = "open" => Undefined(p, c)
     /\ SetMax(qs) <= filled + 1 /\ SetMax(hs) <= filled + 1
===============================================================================
