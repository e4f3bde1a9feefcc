-------------------------------- MODULE Prover ---------------------------------
(***************************************************************************)
(* The accelerated run, end to end.  The tape is kept in blocks             *)
(* <<color, count, tag>>; a cycle is one move (over a whole block, when the *)
(* state stays the same and so does the color) or one use of a rule.  The   *)
(* pieces are those of the other modules -- the sightings of PastConfigs,   *)
(* the windows of EnumTape and RuleUse, the rules of RuleLearn and Rule --  *)
(* and here they are put together, so that what the prover proves, when, on *)
(* which tapes it uses it and how often, is all determined:                 *)
(*   - before every cycle the rules are looked through, in the order they   *)
(*     were proved, for one that fits the tape; it is applied as often as   *)
(*     all the blocks it shrinks allow, if at all;                          *)
(*   - otherwise the sighting of the signature of the tape is noted, and    *)
(*     when its last five are regular the run is carried on, on a copy and  *)
(*     with the rules there are, to where the next three would be;          *)
(*   - if it is back in the same state with compatible tapes three times,   *)
(*     and the counts change by a rule, that rule is kept with a window of  *)
(*     what the first of the three stretches depended on, and used at once; *)
(*     one that shrinks nothing shows that the run never ends;              *)
(*   - a rule of two blocks that only moves cells across the head is not    *)
(*     kept.                                                                *)
(* Only rules that add are used here: a run ends where one that multiplies  *)
(* is found (less: it multiplies and takes away, which only one of the      *)
(* implementations looks for), or where counts or stretches become too      *)
(* large for this module (reach).                                           *)
(*                                                                          *)
(* A record: p, the program or the table of a macro machine; L, the cycles looked at.  The first sighting   *)
(* in a state that is not the first of its signature may be noted twice.    *)
(***************************************************************************)
EXTENDS TM, Json, IOUtils

CONSTANTS MostCount, MostStretch

Recs == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES i, s

vars == <<i, s>>

(* ---- tapes ----------------------------------------------------------- *)

Single(b) == b[2] = 1

Sig1(side) == [k \in 1 .. Len(side) |-> <<side[k][1], Single(side[k])>>]

Sig(t) == <<t[2], Sig1(t[1]), Sig1(t[3])>>

Tagged(side) == [k \in 1 .. Len(side) |-> <<side[k][1], side[k][2], k>>]

Plain(side) == [k \in 1 .. Len(side) |-> <<side[k][1], side[k][2], 0>>]

Big(t) ==
  \/ \E k \in 1 .. Len(t[1]) : t[1][k][2] > MostCount
  \/ \E k \in 1 .. Len(t[3]) : t[3][k][2] > MostCount

RECURSIVE Nonzero(_, _)
Nonzero(side, k) ==
  IF k > Len(side) THEN 0
  ELSE (IF side[k][1] = 0 THEN 0 ELSE side[k][2]) + Nonzero(side, k + 1)

MarksOf(t) ==
  Nonzero(t[1], 1) + Nonzero(t[3], 1) + (IF t[2] = 0 THEN 0 ELSE 1)

(* One move, and how many steps it is.                                      *)
Moved(t, x, stay) ==
  LET pull == IF x[2] = 1 THEN t[3] ELSE t[1]
      push == IF x[2] = 1 THEN t[1] ELSE t[3]
      whole == stay /\ pull # <<>> /\ Head(pull)[1] = t[2]
      n == IF whole THEN 1 + Head(pull)[2] ELSE 1
      rest == IF whole THEN Tail(pull) ELSE pull
      scan == IF rest = <<>> THEN 0 ELSE Head(rest)[1]
      ahead == IF rest = <<>> THEN <<>>
               ELSE IF Single(Head(rest)) THEN Tail(rest)
               ELSE <<[Head(rest) EXCEPT ![2] = @ - 1]>> \o Tail(rest)
      behind == IF push # <<>> /\ Head(push)[1] = x[1]
                THEN <<[Head(push) EXCEPT ![2] = @ + n]>> \o Tail(push)
                ELSE IF push = <<>> /\ x[1] = 0 THEN <<>>
                ELSE << <<x[1], n, 0>> >> \o push IN
  <<IF x[2] = 1 THEN <<behind, scan, ahead>> ELSE <<ahead, scan, behind>>, n>>

(* ---- what a stretch depends on ---------------------------------------- *)

(* Depth of blocks on either side, and whether its end was met.  Tags are   *)
(* positive on the right and negative on the left.                          *)
NoNeed == <<0, 0, FALSE, FALSE>>

Deep(n, tag) ==
  IF tag < 0 /\ n[1] < -tag THEN [n EXCEPT ![1] = -tag]
  ELSE IF tag > 0 /\ n[2] < tag THEN [n EXCEPT ![2] = tag]
  ELSE n

Met(n, right) == IF right THEN [n EXCEPT ![4] = TRUE] ELSE [n EXCEPT ![3] = TRUE]

NeedMove(n, t, x, stay) ==
  LET pull == IF x[2] = 1 THEN t[3] ELSE t[1]
      push == IF x[2] = 1 THEN t[1] ELSE t[3]
      whole == stay /\ pull # <<>> /\ Head(pull)[1] = t[2]
      a == IF pull = <<>> THEN Met(n, x[2] = 1) ELSE Deep(n, Head(pull)[3])
      b == IF ~whole THEN a
           ELSE IF Len(pull) = 1 THEN Met(a, x[2] = 1)
           ELSE Deep(a, pull[2][3]) IN
  IF push # <<>> /\ Head(push)[1] = x[1] THEN Deep(b, Head(push)[3]) ELSE b

(* ---- rules ------------------------------------------------------------- *)

(* A rule: a sequence of <<side, position, difference>>.                    *)
BlockAt(t, d) == IF d[1] = 1 THEN t[3][d[2]] ELSE t[1][d[2]]

(* How often, with the count that is left of a block that shrinks.          *)
Often(n, c) == (n - 1) \div c

(* The differences that are looked at before the rule is found to apply no  *)
(* times: those that shrink, up to the first that cannot.                   *)
RECURSIVE Looked(_, _, _, _)
Looked(rule, t, n, k) ==
  IF k > Len(rule) THEN <<TRUE, n>>
  ELSE IF rule[k][3] >= 0 THEN Looked(rule, t, n, k + 1)
  ELSE LET b == BlockAt(t, rule[k]) IN
    IF -rule[k][3] >= b[2] THEN <<FALSE, Deep(n, b[3])>>
    ELSE Looked(rule, t, Deep(n, b[3]), k + 1)

RECURSIVE DeepAll(_, _, _, _)
DeepAll(rule, t, n, k) ==
  IF k > Len(rule) THEN n
  ELSE DeepAll(rule, t, Deep(n, BlockAt(t, rule[k])[3]), k + 1)

RECURSIVE Times(_, _, _)
Times(rule, t, k) ==
  IF k > Len(rule) THEN MostCount + 1
  ELSE LET rest == Times(rule, t, k + 1) IN
    IF rule[k][3] >= 0 THEN rest
    ELSE LET o == Often(BlockAt(t, rule[k])[2], -rule[k][3]) IN
      IF o < rest THEN o ELSE rest

RECURSIVE Changed(_, _, _, _)
Changed(rule, t, times, k) ==
  IF k > Len(rule) THEN t
  ELSE LET d == rule[k]
           side == IF d[1] = 1 THEN 3 ELSE 1 IN
    Changed(rule, [t EXCEPT ![side][d[2]][2] = @ + d[3] * times], times, k + 1)

(* <<applied, tape, times, need>>                                           *)
Use(rule, t, n) ==
  LET look == Looked(rule, t, n, 1) IN
  IF ~look[1] THEN <<FALSE, t, 0, look[2]>>
  ELSE LET times == Times(rule, t, 1) IN
    <<TRUE, Changed(rule, t, times, 1), times, DeepAll(rule, t, look[2], 1)>>

SideFits(window, end, side) ==
  /\ Len(window) <= Len(side)
  /\ end => Len(window) = Len(side)
  /\ \A x \in 1 .. Len(window) :
       window[x] = <<side[x][1], Single(side[x])>>

RECURSIVE Fitting(_, _, _, _)
Fitting(mem, q, t, k) ==
  IF k > Len(mem) THEN 0
  ELSE IF /\ mem[k].q = q
          /\ mem[k].h = t[2]
          /\ SideFits(mem[k].l, mem[k].le, t[1])
          /\ SideFits(mem[k].r, mem[k].re, t[3])
  THEN k
  ELSE Fitting(mem, q, t, k + 1)

(* For the table of a macro machine: an instruction that never ends, and    *)
(* one that is not in the table.                                            *)
IsLoop(x) == x[1] = -1

IsUnknown(x) == x[1] = -2

(* ---- carrying a run on -------------------------------------------------- *)

(* <<what, state, tape, need>>                                              *)
RECURSIVE Carry(_, _, _, _, _, _)
Carry(p, mem, m, q, t, n) ==
  IF m = 0 THEN <<"ok", q, t, n>>
  ELSE
    LET f == Fitting(mem, q, t, 1)
        u == IF f = 0 THEN <<FALSE, t, 0, n>> ELSE Use(mem[f].rule, t, n) IN
    IF u[1]
    THEN IF Big(u[2]) THEN <<"big", q, t, n>>
         ELSE Carry(p, mem, m - 1, q, u[2], u[4])
    ELSE
      LET x == Instr(p, q, t[2]) IN
      IF x = <<>> \/ IsLoop(x) THEN <<"undefined", q, t, n>>
      ELSE IF IsUnknown(x) THEN <<"big", q, t, n>>
      ELSE LET stay == x[3] = q IN
        Carry(p, mem, m - 1, x[3], Moved(t, x, stay)[1],
              NeedMove(u[4], t, x, stay))

(* ---- proving ------------------------------------------------------------ *)

P(z, k, x) == z[x + 1] - k * z[x]

Regular(z, k) ==
  LET d == P(z, k, 4) - P(z, k, 3) IN
  P(z, k, 3) - P(z, k, 2) = d /\ P(z, k, 2) - P(z, k, 1) = d

Ahead(z, k) ==
  LET d == P(z, k, 4) - P(z, k, 3)
      p == P(z, k, 4)
      n1 == k * z[5] + p + d
      n2 == k * n1 + p + 2 * d
      n3 == k * n2 + p + 3 * d IN
  IF z[5] <= n1 /\ n1 <= n2 /\ n2 <= n3
  THEN <<n1 - z[5], n2 - n1, n3 - n2>> ELSE <<>>

Deltas(z) ==
  IF Len(z) < 5 THEN <<>>
  ELSE LET ks == {k \in 1 .. 4 : Regular(z, k)} IN
    IF ks = {} THEN <<>>
    ELSE Ahead(z, CHOOSE k \in ks : \A j \in ks : k <= j)

LastFour(z) == IF Len(z) <= 4 THEN z ELSE SubSeq(z, Len(z) - 3, Len(z))

SameColors(side, sig) ==
  /\ Len(side) >= Len(sig)
  /\ \A k \in 1 .. Len(sig) : side[k][1] = sig[k][1]

Compatible(t, sig) ==
  t[2] = sig[1] /\ SameColors(t[1], sig[2]) /\ SameColors(t[3], sig[3])

(* How a count changes: <<word, number>>.                                   *)
Change(a, b, c, d) ==
  IF a = b /\ b = c /\ c = d THEN <<"same", 0>>
  ELSE IF b - a = c - b /\ c - b = d - c THEN <<"plus", b - a>>
  ELSE IF ~(a < b /\ b < c /\ c < d) THEN <<"unknown", 0>>
  ELSE IF /\ b \div a = c \div b /\ c \div b = d \div c
          /\ b % a = c % b /\ c % b = d % c
  THEN <<"times", 0>>
  ELSE
    LET m == 1 + (b \div a)  less == b - a * m IN
    IF /\ c \div b = b \div a
       /\ (c % b = b % a => d \div c = b \div a)
       /\ c - b * m = less /\ d - c * m = less
    THEN <<"less", 0>> ELSE <<"unknown", 0>>

Changes(t0, t1, t2, t3, side) ==
  [k \in 1 .. Len(t0[side]) |->
     Change(t0[side][k][2], t1[side][k][2], t2[side][k][2], t3[side][k][2])]

RECURSIVE Gather(_, _, _)
Gather(ch, side, k) ==
  IF k > Len(ch) THEN <<>>
  ELSE (IF ch[k][1] = "same" THEN <<>> ELSE << <<side, k, ch[k][2]>> >>)
       \o Gather(ch, side, k + 1)

Has(ch, word) == \E k \in 1 .. Len(ch) : ch[k][1] = word

Shrinks(ch) ==
  \E k \in 1 .. Len(ch) : ch[k][1] = "plus" /\ ch[k][2] < 0

Abs(n) == IF n < 0 THEN -n ELSE n

(* What is learnt of tape t in state q from the deltas: <<word, rule, need>>*)
Learn(p, mem, q, t, d) ==
  IF d[1] + d[2] + d[3] > MostStretch THEN <<"reach">>
  ELSE
  LET sig == Sig(t)
      t0 == <<[k \in 1 .. Len(t[1]) |-> <<t[1][k][1], t[1][k][2], -k>>],
              t[2], Tagged(t[3])>>
      c1 == Carry(p, mem, d[1], q, t0, NoNeed)
      ok1 == c1[1] = "ok" /\ c1[2] = q /\ Compatible(c1[3], sig) IN
  IF c1[1] = "big" THEN <<"reach">> ELSE IF ~ok1 THEN <<"no">>
  ELSE LET c2 == Carry(p, mem, d[2], q, c1[3], NoNeed)
           ok2 == c2[1] = "ok" /\ c2[2] = q /\ Compatible(c2[3], sig) IN
  IF c2[1] = "big" THEN <<"reach">> ELSE IF ~ok2 THEN <<"no">>
  ELSE LET c3 == Carry(p, mem, d[3], q, c2[3], NoNeed)
           ok3 == c3[1] = "ok" /\ c3[2] = q /\ Compatible(c3[3], sig) IN
  IF c3[1] = "big" THEN <<"reach">> ELSE IF ~ok3 THEN <<"no">>
  ELSE LET l == Changes(t0, c1[3], c2[3], c3[3], 1)
           r == Changes(t0, c1[3], c2[3], c3[3], 3) IN
  IF Has(l, "unknown") \/ Has(r, "unknown") THEN <<"no">>
  ELSE IF Has(l, "less") \/ Has(r, "less") THEN <<"less">>
  ELSE IF ~Shrinks(l) /\ ~Shrinks(r) THEN <<"infinite">>
  ELSE IF Has(l, "times") \/ Has(r, "times") THEN <<"times">>
  ELSE
  LET rule == Gather(l, 0, 1) \o Gather(r, 1, 1) IN
  IF /\ Len(rule) = 2 /\ Len(t[1]) = 1 /\ Len(t[3]) = 1
     /\ Abs(rule[1][3]) = Abs(rule[2][3])
  THEN <<"no">>
  ELSE <<"rule", rule, c1[4]>>

(* ---- the run ------------------------------------------------------------ *)

Start(twice) ==
  [twice |-> twice, cycle |-> 0, q |-> 0, t |-> <<<<>>, 0, <<>>>>,
   steps |-> 0, alone |-> TRUE, rulapp |-> 0, blanks |-> <<>>,
   mem |-> <<>>, seen |-> <<>>, kept |-> <<>>, end |-> "", phase |-> "run"]

End(z, word) == [z EXCEPT !.end = word]

(* A move, when no rule was used.                                           *)
Move(p, z) ==
  LET x == Instr(p, z.q, z.t[2]) IN
  IF x = <<>> THEN End(z, "undfnd")
  ELSE IF IsLoop(x) THEN End(z, "loop")
  ELSE IF IsUnknown(x) THEN End(z, "reach")
  ELSE IF x[3] = z.q /\ z.t[2] = 0 /\ z.t[IF x[2] = 1 THEN 3 ELSE 1] = <<>>
  THEN End(z, "spnout")
  ELSE
    LET m == Moved(z.t, x, x[3] = z.q)
        n == [z EXCEPT !.q = x[3], !.t = m[1], !.steps = @ + m[2],
                       !.cycle = @ + 1] IN
    IF x[1] = 0 /\ m[1] = <<<<>>, 0, <<>>>>
    THEN LET again == \E k \in 1 .. Len(z.blanks) : z.blanks[k][1] = x[3]
             o == [n EXCEPT !.blanks = IF again THEN @ ELSE
                      Append(@, <<x[3], n.steps, n.alone>>)] IN
         IF again \/ x[3] = 0 THEN [o EXCEPT !.end = "blank", !.cycle = z.cycle]
         ELSE o
    ELSE n

UseOrMove(p, z, rule) ==
  LET u == Use(rule, z.t, NoNeed) IN
  IF ~u[1] THEN Move(p, z)
  ELSE IF Big(u[2]) THEN End(z, "reach")
  ELSE [z EXCEPT !.t = u[2], !.rulapp = @ + u[3], !.cycle = @ + 1,
                 !.alone = FALSE]

(* seen: signatures, in the order they were first seen; kept: for each of   *)
(* them the states and their last sightings, as <<state, cycles>>.          *)
RECURSIVE Place(_, _, _)
Place(list, x, k) ==
  IF k > Len(list) THEN 0 ELSE IF list[k] = x THEN k ELSE Place(list, x, k + 1)

RECURSIVE PlaceOf(_, _, _)
PlaceOf(list, q, k) ==
  IF k > Len(list) THEN 0
  ELSE IF list[k][1] = q THEN k ELSE PlaceOf(list, q, k + 1)

WindowOf(side, n) == [k \in 1 .. n |-> <<side[k][1], Single(side[k])>>]

Cycle(p, z) ==
  LET f == Fitting(z.mem, z.q, z.t, 1) IN
  IF f # 0 THEN UseOrMove(p, z, z.mem[f].rule)
  ELSE
  LET sig == Sig(z.t)
      at == Place(z.seen, sig, 1) IN
  IF at = 0
  THEN Move(p, [z EXCEPT !.seen = Append(@, sig),
                         !.kept = Append(@, << <<z.q, <<z.cycle>>>> >>)])
  ELSE
  LET b == PlaceOf(z.kept[at], z.q, 1)
      old == IF b # 0 THEN z.kept[at][b][2]
             ELSE IF z.twice THEN <<z.cycle>> ELSE <<>>
      new == Append(old, z.cycle)
      d == Deltas(new)
      entry == <<z.q, LastFour(new)>>
      noted == IF b # 0 THEN [z EXCEPT !.kept[at][b] = entry]
               ELSE [z EXCEPT !.kept[at] = Append(@, entry)] IN
  IF d = <<>> THEN Move(p, noted)
  ELSE
  LET learnt == Learn(p, z.mem, z.q, z.t, d) IN
  IF learnt[1] \in {"reach", "infinite", "times", "less"} THEN End(z, learnt[1])
  ELSE IF learnt[1] = "no" THEN Move(p, noted)
  ELSE
  LET need == learnt[3] IN
  UseOrMove(p,
    [noted EXCEPT
       !.kept[at] = SelectSeq(@, LAMBDA e : e[1] # z.q),
       !.mem = Append(@, [q |-> z.q, h |-> z.t[2],
                          l |-> WindowOf(z.t[1], need[1]),
                          r |-> WindowOf(z.t[3], need[2]),
                          le |-> need[3], re |-> need[4],
                          rule |-> learnt[2]])],
    learnt[2])

RECURSIVE Go(_, _, _)
Go(p, z, k) ==
  IF k = 0 \/ z.end # "" THEN z ELSE
    LET n == Cycle(p, z) IN
    Go(p, IF n.end = "reach" THEN End(z, "reach") ELSE n, k - 1)

Init ==
  /\ i \in 1 .. Len(Recs)
  /\ s \in {Start(TRUE), Start(FALSE)}

Less(a, b) == IF a < b THEN a ELSE b

Run ==
  /\ s.phase = "run"
  /\ s.end = ""
  /\ s.cycle < Recs[i].L
  /\ s' = Go(Recs[i].p, s, Less(32, Recs[i].L - s.cycle))
  /\ UNCHANGED i

Cells(side) == [k \in 1 .. Len(side) |-> <<side[k][1], side[k][2]>>]

Decide ==
  /\ s.phase = "run"
  /\ (s.end = "" /\ s.cycle < Recs[i].L) = FALSE
  /\ s' = [s EXCEPT !.phase = "done"]
  /\ PrintT(<<"V", i, s.twice, IF s.end = "" THEN "xlimit" ELSE s.end,
              s.cycle, s.q, <<Cells(s.t[1]), s.t[2], Cells(s.t[3])>>,
              MarksOf(s.t), s.steps, s.alone, s.rulapp, s.blanks,
              Len(s.seen),
              [k \in 1 .. Len(s.mem) |->
                 LET m == s.mem[k] IN
                 <<m.q, m.h, m.l, m.r, m.le, m.re, m.rule>>]>>)
  /\ UNCHANGED i

Next == Run \/ Decide

Spec == Init /\ [][Next]_vars
===============================================================================
