--------------------------------- MODULE Extent --------------------------------
(***************************************************************************)
(* How much of a tape a run depends on.  Every cell is <<color, side,       *)
(* number>>: the original block it comes from, counted from the head on     *)
(* either side (0 left, 1 right), number 0 when it was written since.       *)
(* need and over grow when                                                  *)
(*   - the head comes upon a cell of an original block,                     *)
(*   - a block an original cell belongs to grows,                           *)
(*   - the head goes over the end of the tape.                              *)
(***************************************************************************)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC

Max(a, b) == IF a > b THEN a ELSE b

(* Cells <<color, side, number>>, side 0 left, 1 right; number 0: none.    *)
RECURSIVE Tagged(_, _, _)
Tagged(bs, side, x) ==
  IF bs = <<>> THEN <<>>
  ELSE [y \in 1 .. Head(bs)[2] |-> <<Head(bs)[1], side, x>>]
       \o Tagged(Tail(bs), side, x + 1)

Touch(nd, cell) ==
  IF cell[3] = 0 THEN nd
  ELSE [nd EXCEPT ![cell[2] + 1] = Max(nd[cell[2] + 1], cell[3])]

RECURSIVE TouchAll(_, _)
TouchAll(nd, cells) ==
  IF cells = <<>> THEN nd ELSE TouchAll(Touch(nd, Head(cells)), Tail(cells))

(* The leading cells of a side that form one block.                        *)
RECURSIVE Lead(_)
Lead(s) ==
  IF s = <<>> THEN 0
  ELSE IF Len(s) > 1 /\ s[2][1] = s[1][1] THEN 1 + Lead(Tail(s)) ELSE 1

RECURSIVE Block(_, _)
Block(s, pos) ==
  LET k == Lead(s) IN
  IF pos = 0 THEN SubSeq(s, 1, k)
  ELSE Block(SubSeq(s, k + 1, Len(s)), pos - 1)

RECURSIVE Blocks(_)
Blocks(s) == IF s = <<>> THEN 0
             ELSE 1 + Blocks(SubSeq(s, Lead(s) + 1, Len(s)))

(* <<tape, need, over>> after one cell.                                    *)
One(x, nd, ov, shift, color) ==
  LET pull == IF shift = 1 THEN x[3] ELSE x[1]
      push == IF shift = 1 THEN x[1] ELSE x[3]
      nd1  == IF pull = <<>> THEN nd ELSE Touch(nd, Head(pull))
      ov1  == IF pull = <<>> THEN [ov EXCEPT ![shift + 1] = 1] ELSE ov
      nd2  == IF push # <<>> /\ Head(push)[1] = color
              THEN TouchAll(nd1, SubSeq(push, 1, Lead(push))) ELSE nd1
      scan == IF pull = <<>> THEN 0 ELSE Head(pull)[1]
      rest == IF pull = <<>> THEN <<>> ELSE Tail(pull)
      over1 == IF color = 0 /\ push = <<>> THEN <<>>
               ELSE <<<<color, 0, 0>>>> \o push IN
  << IF shift = 1 THEN <<over1, scan, rest>> ELSE <<rest, scan, over1>>,
     nd2, ov1 >>

RECURSIVE Run(_, _)
Run(s, h) == IF s # <<>> /\ Head(s)[1] = h THEN 1 + Run(Tail(s), h) ELSE 0

RECURSIVE Times(_, _, _, _)
Times(z, shift, color, k) ==
  IF k = 0 THEN z
  ELSE Times(One(z[1], z[2], z[3], shift, color), shift, color, k - 1)

===============================================================================
