------------------------------ MODULE MacroWindow ------------------------------
(***************************************************************************)
(* A macro machine sees its base machine through a window of cells.  One    *)
(* macro instruction is a whole stay of the base head inside the window:    *)
(*                                                                          *)
(*   "block"  the window is one block of k cells, which is one macro color; *)
(*            the head enters and leaves it at either end.                  *)
(*   "back"   the window is the scanned cell together with the k cells      *)
(*            beside it; those k cells are part of the macro state.  When   *)
(*            the head leaves, the cell at the far end of the window is     *)
(*            left behind, and the window follows the head.                 *)
(*                                                                          *)
(* How macro states and colors are numbered is the code's own business: the *)
(* numbering is learned from the trace (SM, CM) starting from state 0 and   *)
(* color 0, and has to be consistent.  The macro machine may be the mirror  *)
(* image of the base machine, and may start at either end of its window     *)
(* (mirror, end0), as long as it is so throughout.                          *)
(*                                                                          *)
(* A record: tab, the base program, a sequence of                           *)
(*   <<q, h, "i", print, shift, next>>, <<q, h, "u", q0, h0>> (undefined,   *)
(*   at base slot q0, h0) or <<q, h, "l">> (never comes back);              *)
(* kind, k, base (number of base states, colors) and lines, the macro       *)
(* program in the same form, "n" standing for "u" or "l" without details.   *)
(***************************************************************************)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC, Json, IOUtils

Recs == ndJsonDeserialize(IOEnv.TRACE)

H == 400   \* steps inside a window before it counts as never left

VARIABLES i, l, SM, CM, mirror, end0, verdict

vars == <<i, l, SM, CM, mirror, end0, verdict>>

rec == Recs[i]

Zeros(n) == [x \in 1 .. n |-> 0]

(* SM: pairs <<macro state, base state, side of the head (1 = right end),
   cells beside it from left to right>>; CM: pairs <<macro color, cells>>. *)
Init ==
  /\ i \in 1 .. Len(Recs)
  /\ l = 1
  /\ mirror \in {0, 1}
  /\ end0 \in {0, 1}
  /\ SM = {<<0, 0, end0, IF Recs[i].kind = "back" THEN Zeros(Recs[i].k)
                         ELSE <<>> >>}
  /\ CM = {<<0, IF Recs[i].kind = "back" THEN <<0>> ELSE Zeros(Recs[i].k)>>}
  /\ verdict = "run"

(* With a window on single cells a macro color is the color itself.        *)
CellsOf(col) ==
  IF rec.kind = "back" THEN <<col>>
  ELSE (CHOOSE e \in CM : e[1] = col)[2]

Known(col) == rec.kind = "back" \/ \E e \in CM : e[1] = col

DecState(Q) == CHOOSE e \in SM : e[1] = Q

Entry(q, h) ==
  LET S == {x \in 1 .. Len(rec.tab) : rec.tab[x][1] = q /\ rec.tab[x][2] = h}
  IN IF S = {} THEN <<>> ELSE rec.tab[CHOOSE x \in S : TRUE]

(* The stay in the window: <<how, state, cells, side left or slot>>.       *)
RECURSIVE Stay(_, _, _, _)
Stay(q, w, pos, n) ==
  LET e == Entry(q, w[pos]) IN
  IF e = <<>> THEN <<"u", <<q, w[pos]>>>>
  ELSE IF e[3] = "u" THEN <<"u", <<e[4], e[5]>>>>
  ELSE IF e[3] = "l" THEN <<"l">>
  ELSE IF n = 0 THEN <<"l">>
  ELSE LET w2 == [w EXCEPT ![pos] = e[4]]
           p2 == IF e[5] = 1 THEN pos + 1 ELSE pos - 1 IN
       IF p2 = 0 \/ p2 > Len(w) THEN <<"i", e[6], w2, e[5]>>
       ELSE Stay(e[6], w2, p2, n - 1)

Flip(s) == IF mirror = 1 THEN 1 - s ELSE s

(* What macro instruction the window makes of slot (Q, C), spelled out:
   <<"i", cells printed, shift, base state, side, cells beside>>.          *)
Expected(Q, C) ==
  LET d == DecState(Q)
      right == d[3] = 1
      w == IF rec.kind = "back"
           THEN IF right THEN d[4] \o CellsOf(C) ELSE CellsOf(C) \o d[4]
           ELSE CellsOf(C)
      r == Stay(d[2], w, IF right THEN Len(w) ELSE 1, H)
  IN IF r[1] # "i" THEN r
     ELSE IF rec.kind = "back"
     THEN \* left on the right: the leftmost cell stays behind
          IF r[4] = 1
          THEN <<"i", <<r[3][1]>>, 1, r[2], 1, Tail(r[3])>>
          ELSE <<"i", <<r[3][Len(r[3])]>>, 0, r[2], 0,
                 SubSeq(r[3], 1, Len(r[3]) - 1)>>
     ELSE <<"i", r[3], r[4], r[2], 1 - r[4], <<>> >>

Line == rec.lines[l]

Clause ==
  LET Q == Line[1]
      C == Line[2]
      how == Line[3] IN
  IF ~(\E e \in SM : e[1] = Q) \/ ~Known(C)
  THEN "a macro state or color that nothing leads to"
  ELSE LET x == Expected(Q, C) IN
  IF how = "n" THEN IF x[1] = "i" THEN "the window is left" ELSE "ok"
  ELSE IF how # x[1] THEN
    CASE x[1] = "u" -> "the base machine has no instruction there"
      [] x[1] = "l" -> "the window is never left"
      [] OTHER -> "the window is left"
  ELSE IF how = "u" THEN
    IF <<Line[4], Line[5]>> = x[2] THEN "ok" ELSE "wrong base slot"
  ELSE IF how = "l" THEN "ok"
  ELSE IF Line[5] # Flip(x[3]) THEN "wrong shift"
  ELSE IF rec.kind = "back" /\ Line[4] # x[2][1] THEN "wrong color"
  ELSE IF rec.kind # "back" /\ (Line[4] = 0) # (x[2] = Zeros(rec.k))
  THEN "the blank block is color 0, and only that"
  ELSE IF rec.kind # "back" /\ \E e \in CM : e[1] = Line[4] /\ e[2] # x[2]
  THEN "one color for different blocks"
  ELSE IF \E e \in SM : e[1] = Line[6] /\ <<e[2], e[3], e[4]>>
                                             # <<x[4], x[5], x[6]>>
  THEN "one state for different situations"
  ELSE "ok"

Take ==
  /\ verdict = "run"
  /\ l <= Len(rec.lines)
  /\ Clause = "ok"
  /\ l' = l + 1
  /\ IF Line[3] # "i" THEN UNCHANGED <<SM, CM>>
     ELSE LET x == Expected(Line[1], Line[2]) IN
          /\ SM' = SM \union {<<Line[6], x[4], x[5], x[6]>>}
          /\ CM' = IF rec.kind = "back" THEN CM
                   ELSE CM \union {<<Line[4], x[2]>>}
  /\ UNCHANGED <<i, mirror, end0, verdict>>

Decide ==
  /\ verdict = "run"
  /\ IF l > Len(rec.lines) THEN TRUE ELSE Clause # "ok"
  /\ verdict' = IF l > Len(rec.lines) THEN "ok" ELSE Clause
  /\ PrintT(<<"V", i, verdict', l>>)
  /\ UNCHANGED <<i, l, SM, CM, mirror, end0>>

Next == Take \/ Decide

Spec == Init /\ [][Next]_vars
===============================================================================
