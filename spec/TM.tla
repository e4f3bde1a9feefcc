---------------------------------- MODULE TM ----------------------------------
(***************************************************************************)
(* The one-tape Turing machine, at the level of single cells: the meaning   *)
(* that every simulator, prover and reasoner of the repository is judged    *)
(* against.                                                                 *)
(*                                                                          *)
(* A program is a sequence of rows, one per state; a row is a sequence of   *)
(* instructions, one per color.  An instruction is <<print, shift, next>>   *)
(* with shift 1 for right and 0 for left, or <<>> when it is undefined.     *)
(* States and colors are counted from 0, as in the code.                    *)
(*                                                                          *)
(* A configuration is <<state, left, scan, right>>; left and right are the  *)
(* cells beside the head, nearest first, with no trailing blanks.           *)
(***************************************************************************)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC

Init0 == <<0, <<>>, 0, <<>>>>

St(c)   == c[1]
Lt(c)   == c[2]
Scan(c) == c[3]
Rt(c)   == c[4]

Instr(p, q, h) ==
  IF q < Len(p) /\ h < Len(p[q + 1]) THEN p[q + 1][h + 1] ELSE <<>>

InstrAt(p, c) == Instr(p, St(c), Scan(c))

Undefined(p, c) == InstrAt(p, c) = <<>>

(* Cells beyond the head on the side of shift s are all blank.            *)
BlankBeyond(c, s) == IF s = 1 THEN Rt(c) = <<>> ELSE Lt(c) = <<>>

AtEdge(c, s) == Scan(c) = 0 /\ BlankBeyond(c, s)

(* The machine can never leave its state again: it reads a blank, stays in
   its state and moves over cells that are all blank.                      *)
SpinsOut(p, c) ==
  LET i == InstrAt(p, c) IN
    /\ i # <<>>
    /\ i[3] = St(c)
    /\ AtEdge(c, i[2])

IsBlank(c) == Scan(c) = 0 /\ Lt(c) = <<>> /\ Rt(c) = <<>>

Push(cell, side) == IF cell = 0 /\ side = <<>> THEN <<>> ELSE <<cell>> \o side

(* Carry out instruction i = <<print, shift, next>> in configuration c.    *)
Apply(c, i) ==
  IF i[2] = 1
  THEN LET r == Rt(c) IN
       << i[3], Push(i[1], Lt(c)),
          IF r = <<>> THEN 0 ELSE Head(r),
          IF r = <<>> THEN <<>> ELSE Tail(r) >>
  ELSE LET l == Lt(c) IN
       << i[3], IF l = <<>> THEN <<>> ELSE Tail(l),
          IF l = <<>> THEN 0 ELSE Head(l),
          Push(i[1], Rt(c)) >>

Step(p, c) == Apply(c, InstrAt(p, c))

RECURSIVE CountNZ(_, _)
CountNZ(s, k) ==
  IF k > Len(s) THEN 0 ELSE (IF s[k] = 0 THEN 0 ELSE 1) + CountNZ(s, k + 1)

Marks(c) ==
  CountNZ(Lt(c), 1) + CountNZ(Rt(c), 1) + (IF Scan(c) = 0 THEN 0 ELSE 1)

(* Steps from c until something final happens, at most k of them.          *)
RECURSIVE RunFor(_, _, _)
RunFor(p, c, k) ==
  IF k = 0 \/ Undefined(p, c) THEN c ELSE RunFor(p, Step(p, c), k - 1)

(* Drop trailing blanks. *)
RECURSIVE Trim(_)
Trim(s) ==
  IF s = <<>> THEN <<>>
  ELSE IF s[Len(s)] = 0 THEN Trim(SubSeq(s, 1, Len(s) - 1)) ELSE s

Mirror(c) == <<St(c), Rt(c), Scan(c), Lt(c)>>
===============================================================================
