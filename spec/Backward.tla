-------------------------------- MODULE Backward --------------------------------
(***************************************************************************)
(* The search backward from a goal (coming to an undefined instruction,     *)
(* erasing the tape, spinning out).  A configuration is what has to be on   *)
(* the tape n steps before: some cells about the head, and beyond them, on  *)
(* either side, blanks only or anything at all.  A level of the search is   *)
(* all the configurations n steps before; it is followed by the level of    *)
(* what one instruction leads from to there.                                *)
(*                                                                          *)
(* The search shows that the goal is never come to when a level has nothing *)
(* before it.  It gives up when it gets to the start (the state A and only  *)
(* blanks known), when a run along blanks or unknown cells could have gone  *)
(* on for ever, when more than Most configurations of a level can be led    *)
(* back, or when two configurations in a line of descent repeat others of   *)
(* it, shifted or not.                                                      *)
(*                                                                          *)
(* A record holds a program, the goal and the answers of the real code for  *)
(* some depths: the number of the level, or -1.                             *)
(***************************************************************************)
EXTENDS TM, Json, IOUtils

Recs == ndJsonDeserialize(IOEnv.TRACE)

Most == 46

(* wide: the most configurations of a level led back so far               *)
VARIABLES i, use, level, n, blanks, wide, end

vars == <<i, use, level, n, blanks, wide, end>>

rec == Recs[i]
p == rec.p

-----------------------------------------------------------------------------
(* The program: its instructions in order, as <<state, color, print, shift,
   next>>, and the states that can have been come to after any number of
   steps, from which alone a search leads back.                            *)

RECURSIVE Instrs(_, _)
Instrs(q, h) ==
  IF q >= Len(p) THEN <<>>
  ELSE IF h >= Len(p[q + 1]) THEN Instrs(q + 1, 0)
  ELSE LET x == p[q + 1][h + 1] IN
       IF x = <<>> THEN Instrs(q, h + 1)
       ELSE << <<q, h>> \o x >> \o Instrs(q, h + 1)

RECURSIVE Lasting(_, _)
Lasting(all, qs) ==
  LET more == {q \in qs : \E k \in 1 .. Len(all) :
                 all[k][5] = q /\ all[k][1] \in qs} IN
  IF more = qs THEN qs ELSE Lasting(all, more)

States(all) == {all[k][5] : k \in 1 .. Len(all)}

(* The instructions a search leads back through.                           *)
Usable(all) ==
  LET lasting == Lasting(all, States(all))
      OK(x) == x[1] \in lasting IN SelectSeq(all, OK)

Max(s) == CHOOSE x \in s : \A y \in s : y <= x

-----------------------------------------------------------------------------
(* Configurations                                                          *)

Conf(q, h, le, re) ==
  [q |-> q, l |-> <<>>, h |-> h, r |-> <<>>, le |-> le, re |-> re,
   at |-> 0, recs |-> 0, up |-> <<>>]

Slots(all) ==
         LET ks == 1 .. Len(all)
             mq == Max({all[k][1] : k \in ks})
             mh == Max({all[k][2] : k \in ks}) IN
         [k \in 1 .. (mq + 1) * (mh + 1) |->
            <<(k - 1) \div (mh + 1), (k - 1) % (mh + 1)>>]

Halts(x) == Instr(p, x[1], x[2]) = <<>>
Erases(x) == x[2] # 0 /\ x[3] = 0
Spins(x) == x[2] = 0 /\ x[5] = x[1]

Goals(all) ==
  IF rec.goal = "halt" THEN
    LET s == SelectSeq(Slots(all), Halts) IN
    [k \in 1 .. Len(s) |-> Conf(s[k][1], s[k][2], "any", "any")]
  ELSE IF rec.goal = "erase" THEN
    LET s == SelectSeq(all, Erases) IN
    [k \in 1 .. Len(s) |-> Conf(s[k][1], s[k][2], "blank", "blank")]
  ELSE
    LET s == SelectSeq(all, Spins) IN
    [k \in 1 .. Len(s) |->
       IF s[k][4] = 1 THEN Conf(s[k][1], 0, "any", "blank")
                      ELSE Conf(s[k][1], 0, "blank", "any")]

Zeros(s) == \A k \in 1 .. Len(s) : s[k] = 0
Clean(c) == c.h = 0 /\ Zeros(c.l) /\ Zeros(c.r)

-----------------------------------------------------------------------------
(* One step back.  x leads to c when it leads to its state and the cell it
   has just left, beside the head, holds what it prints.                   *)

Behind(c, x) == IF x[4] = 1 THEN c.l ELSE c.r
Ahead(c, x) == IF x[4] = 1 THEN c.r ELSE c.l
BehindEnd(c, x) == IF x[4] = 1 THEN c.le ELSE c.re
AheadEnd(c, x) == IF x[4] = 1 THEN c.re ELSE c.le

Leads(c, x) ==
  /\ x[5] = c.q
  /\ IF Behind(c, x) # <<>> THEN Head(Behind(c, x)) = x[3]
     ELSE BehindEnd(c, x) = "blank" => x[3] = 0

(* The same instruction in the same cell contents, at the edge of what is
   known: it may have been carried out any number of times.                *)
Endless(c, x) ==
  /\ Leads(c, x)
  /\ x[1] = c.q
  /\ x[2] = c.h
  /\ Behind(c, x) = <<>>
  /\ BehindEnd(c, x) = "blank" \/ Ahead(c, x) # <<>>

Cover(c, x) ==
  IF c.h # 0 \/ Ahead(c, x) # <<>> \/ AheadEnd(c, x) = "any"
  THEN <<c.h>> \o Ahead(c, x) ELSE <<>>

Uncover(c, x) == IF Behind(c, x) = <<>> THEN <<>> ELSE Tail(Behind(c, x))

Back(c, x) ==
  [q |-> x[1], h |-> x[2],
   l |-> IF x[4] = 1 THEN Uncover(c, x) ELSE Cover(c, x),
   r |-> IF x[4] = 1 THEN Cover(c, x) ELSE Uncover(c, x),
   le |-> c.le, re |-> c.re,
   at |-> IF x[4] = 1 THEN c.at - 1 ELSE c.at + 1,
   recs |-> c.recs,
   up |-> << <<c.q, c.l, c.h, c.r, c.at>> >> \o c.up]

Cell(s, k) == IF k > Len(s) THEN 0 ELSE s[k]

RECURSIVE Blocks(_, _)
Blocks(s, k) ==
  IF k > Len(s) THEN 0
  ELSE (IF k = 1 \/ s[k] # s[k - 1] THEN 1 ELSE 0) + Blocks(s, k + 1)

(* c repeats its ancestor u; lo and hi: how far the head was between.      *)
Same(c, u, lo, hi) ==
  LET d == c.at - u[5] IN
  /\ c.q = u[1]
  /\ c.h = u[3]
  /\ IF d = 0 THEN c.l = u[2] /\ c.r = u[4]
     ELSE IF d > 0
     THEN /\ c.r = u[4]
          /\ Blocks(c.l, 1) >= Blocks(u[2], 1)
          /\ \A k \in 1 .. u[5] - lo : Cell(c.l, k) = Cell(u[2], k)
     ELSE /\ c.l = u[2]
          /\ Blocks(c.r, 1) >= Blocks(u[4], 1)
          /\ \A k \in 1 .. hi - u[5] : Cell(c.r, k) = Cell(u[4], k)

RECURSIVE Recurs(_, _, _, _)
Recurs(c, k, lo, hi) ==
  IF k > Len(c.up) THEN FALSE
  ELSE LET at == c.up[k][5]
           lo2 == IF at < lo THEN at ELSE lo
           hi2 == IF at > hi THEN at ELSE hi IN
       IF Same(c, c.up[k], lo2, hi2) THEN TRUE ELSE Recurs(c, k + 1, lo2, hi2)

-----------------------------------------------------------------------------
(* A level                                                                 *)

Lives(c) == \E k \in 1 .. Len(use) : Leads(c, use[k])

(* All that is before configuration lev[a], instruction use[b] on; acc is
   <<configurations, states with a clean tape, reason to give up>>.        *)
RECURSIVE Before(_, _, _, _)
Before(lev, a, b, acc) ==
  IF a > Len(lev) \/ acc[3] # "" THEN acc
  ELSE IF b > Len(use) THEN Before(lev, a + 1, 1, acc)
  ELSE IF ~Leads(lev[a], use[b]) THEN Before(lev, a, b + 1, acc)
  ELSE
    LET c == Back(lev[a], use[b]) IN
    IF Clean(c) /\ c.q = 0
      THEN <<acc[1], acc[2], "start">>
    ELSE IF Clean(c) /\ c.q \in acc[2]
      THEN Before(lev, a, b + 1, acc)
    ELSE
      LET seen == IF Clean(c) THEN acc[2] \cup {c.q} ELSE acc[2]
          rep == Recurs(c, 1, c.at, c.at) IN
      IF rep /\ c.recs >= 1 THEN <<acc[1], seen, "repeats">>
      ELSE Before(lev, a, b + 1,
                  <<Append(acc[1], IF rep THEN [c EXCEPT !.recs = 1] ELSE c),
                    seen, "">>)

First(all, goals) ==
  LET lasting == Lasting(all, States(all))
      OK(c) == c.q \in lasting IN SelectSeq(goals, OK)

Init ==
  /\ i \in 1 .. Len(Recs)
  /\ use = <<>>
  /\ level = <<>>
  /\ blanks = {}
  /\ n = -1
  /\ wide = 0
  /\ end = ""

Start ==
  /\ n = -1
  /\ LET all == Instrs(0, 0)
         goals == Goals(all)
         first == First(all, goals) IN
     /\ use' = Usable(all)
     /\ level' = first
     /\ blanks' = {first[k].q :
                      k \in {k \in 1 .. Len(first) : Clean(first[k])}}
     /\ end' = IF goals = <<>> THEN "no goal" ELSE ""
  /\ n' = 0
  /\ UNCHANGED <<i, wide>>

Move ==
  /\ end = ""
  /\ n >= 0
  /\ n < rec.D
  /\ LET live == SelectSeq(level, Lives)
         endless == \E a \in 1 .. Len(level) : \E b \in 1 .. Len(use) :
                       Endless(level[a], use[b]) IN
     IF endless
     THEN /\ end' = "endless"
          /\ UNCHANGED <<level, n, blanks, wide>>
     ELSE IF live = <<>>
     THEN /\ end' = "nothing before"
          /\ UNCHANGED <<level, n, blanks, wide>>
     ELSE IF Len(live) > Most
     THEN /\ end' = "many"
          /\ UNCHANGED <<level, n, blanks, wide>>
     ELSE LET s == Before(live, 1, 1, <<<<>>, blanks, "">>) IN
          /\ level' = s[1]
          /\ blanks' = s[2]
          /\ end' = s[3]
          /\ n' = n + 1
          /\ wide' = IF Len(live) > wide THEN Len(live) ELSE wide
  /\ UNCHANGED <<i, use>>

(* What the search says within depth d.                                    *)
Says(d) ==
  IF end = "no goal" THEN 0
  ELSE IF end = "nothing before" /\ n < d THEN n
  ELSE -1

Decide ==
  /\ n >= 0
  /\ end # "done"
  /\ (end = "" /\ n < rec.D) = FALSE
  /\ PrintT(<<"V", i, [k \in 1 .. Len(rec.said) |->
                 IF rec.said[k][2] = Says(rec.said[k][1]) THEN "ok"
                 ELSE IF rec.said[k][2] = -1
                 THEN "nothing is before, and that is missed"
                 ELSE IF Says(rec.said[k][1]) = -1
                 THEN "said to be impossible, but the search shows no such thing"
                 ELSE "another level"],
              n, wide, IF end = "" THEN "depth" ELSE end>>)
  /\ end' = "done"
  /\ UNCHANGED <<i, use, level, n, blanks, wide>>

Next == Start \/ Move \/ Decide

Spec == Init /\ [][Next]_vars
===============================================================================
