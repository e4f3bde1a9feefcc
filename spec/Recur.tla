---------------------------------- MODULE Recur ----------------------------------
(***************************************************************************)
(* Runs that repeat.  The machine of TM.tla is run from the blank tape,     *)
(* moves in one state over cells of one color being taken together as one   *)
(* cycle, and every configuration is kept with the position of its head.    *)
(* Two of them repeat when the state is the same, and so is every cell that *)
(* is read between the two and after the second: the cells on the side the  *)
(* run has moved to, as far as there are any, and on the other side those   *)
(* from the outermost cell come to in between.  What is done between the    *)
(* two is then done again and again.                                        *)
(*                                                                          *)
(* A record of the batch holds a program beginning with 1RB, which is taken *)
(* for granted, the number L of the last cycle looked at, and what the real *)
(* code answered for some limits.  The answer "it is known to go on for     *)
(* ever" is right only when the run spins out or two configurations repeat  *)
(* within the limit; and it must not be missing when the run spins out      *)
(* within the limit, or when the limit is four times the cycle by which a   *)
(* repetition is complete.                                                  *)
(***************************************************************************)
EXTENDS TM, Json, IOUtils

Recs == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES i, hist, phase

vars == <<i, hist, phase>>

rec == Recs[i]
p == rec.p

RECURSIVE Lead(_, _, _)
Lead(s, h, k) == IF k > Len(s) \/ s[k] # h THEN k - 1 ELSE Lead(s, h, k + 1)

RECURSIVE PushMany(_, _, _)
PushMany(k, cell, side) ==
  IF k = 0 THEN side ELSE PushMany(k - 1, cell, Push(cell, side))

(* One cycle from <<configuration, position>>.                             *)
Cycle(e) ==
  LET c == e[1]
      x == InstrAt(p, c)
      pull == IF x[2] = 1 THEN Rt(c) ELSE Lt(c)
      push == IF x[2] = 1 THEN Lt(c) ELSE Rt(c)
      more == IF x[3] = St(c) THEN Lead(pull, Scan(c), 1) ELSE 0
      to == SubSeq(pull, more + 1, Len(pull))
      behind == PushMany(more + 1, x[1], push)
      scan == IF to = <<>> THEN 0 ELSE Head(to)
      ahead == IF to = <<>> THEN <<>> ELSE Tail(to) IN
  IF x[2] = 1 THEN << <<x[3], behind, scan, ahead>>, e[2] + more + 1 >>
              ELSE << <<x[3], ahead, scan, behind>>, e[2] - more - 1 >>

Last == hist[Len(hist)]

Ended(e) == Undefined(p, e[1]) \/ SpinsOut(p, e[1])

RECURSIVE Grow(_, _)
Grow(h, k) ==
  IF k = 0 \/ Len(h) >= rec.L \/ Ended(h[Len(h)]) THEN h
  ELSE Grow(Append(h, Cycle(h[Len(h)])), k - 1)

Cell(s, k) == IF k > Len(s) THEN 0 ELSE s[k]

RECURSIVE Extreme(_, _, _, _)
Extreme(a, b, sign, best) ==
  IF a > b THEN best
  ELSE Extreme(a + 1, b, sign,
               IF sign * hist[a][2] > sign * best THEN hist[a][2] ELSE best)

Repeats(a, b) ==
  LET x == hist[a][1]  y == hist[b][1]
      d == hist[b][2] - hist[a][2] IN
  /\ St(x) = St(y)
  /\ Scan(x) = Scan(y)
  /\ IF d = 0 THEN Lt(x) = Lt(y) /\ Rt(x) = Rt(y)
     ELSE IF d > 0 THEN
       /\ Rt(x) = Rt(y)
       /\ LET n == hist[a][2] - Extreme(a, b, -1, hist[a][2]) IN
            \A k \in 1 .. n : Cell(Lt(x), k) = Cell(Lt(y), k)
     ELSE
       /\ Lt(x) = Lt(y)
       /\ LET n == Extreme(a, b, 1, hist[a][2]) - hist[a][2] IN
            \A k \in 1 .. n : Cell(Rt(x), k) = Cell(Rt(y), k)

(* hist[k] is the configuration before cycle k: with limit m, cycles below
   m are carried out.  The record may name two that repeat; where it does
   not, or later ones than would bear out an answer, they are looked for.  *)
RECURSIVE FirstRepeat(_, _)
FirstRepeat(b, n) ==
  IF b > n THEN 0
  ELSE IF \E a \in 1 .. b - 1 : Repeats(a, b) THEN b
  ELSE FirstRepeat(b + 1, n)

Named ==
  IF rec.w[1] < rec.w[2] /\ rec.w[1] > 0 /\ rec.w[2] <= Len(hist)
  THEN IF Repeats(rec.w[1], rec.w[2]) THEN rec.w[2] ELSE 0
  ELSE 0

Init ==
  /\ i \in 1 .. Len(Recs)
  /\ hist = << << <<1, <<1>>, 0, <<>>>>, 1 >> >>
  /\ phase = "run"

Move ==
  /\ phase = "run"
  /\ ~Ended(Last)
  /\ Len(hist) < rec.L
  /\ hist' = Grow(hist, 64)
  /\ UNCHANGED <<i, phase>>

Spins(m) == SpinsOut(p, Last[1]) /\ Len(hist) < m

Judge(m, said, named) ==
  IF said
  THEN IF Undefined(p, Last[1]) /\ Len(hist) < m
          THEN "said to go on for ever, but it halts"
       ELSE IF Spins(m) \/ (named # 0 /\ named <= m) THEN "ok"
       ELSE IF FirstRepeat(2, IF Len(hist) < m THEN Len(hist) ELSE m) # 0
          THEN "ok"
       ELSE "said to go on for ever, but nothing repeats"
  ELSE IF Spins(m) THEN "it spins out, and that is missed"
  ELSE IF named # 0 /\ 4 * named <= m THEN "it repeats, and that is missed"
  ELSE "ok"

Decide ==
  /\ phase = "run"
  /\ (~Ended(Last) /\ Len(hist) < rec.L) = FALSE
  /\ phase' = "done"
  /\ LET named == Named IN
     PrintT(<<"V", i, [k \in 1 .. Len(rec.said) |->
                        Judge(rec.said[k][1], rec.said[k][2], named)],
              Len(hist), named,
              IF Undefined(p, Last[1]) THEN "undfnd"
              ELSE IF SpinsOut(p, Last[1]) THEN "spnout" ELSE "alive">>)
  /\ UNCHANGED <<i, hist>>

Next == Move \/ Decide

Spec == Init /\ [][Next]_vars
===============================================================================
