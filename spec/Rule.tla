---------------------------------- MODULE Rule ---------------------------------
(***************************************************************************)
(* Rules: how the lengths of blocks change in one round of a machine's      *)
(* behaviour, and what it means to apply a rule as often as it goes.        *)
(*                                                                          *)
(* A rule is a sequence of changes <<side, pos, "p", d, 0>> (add d) or      *)
(* <<side, pos, "m", mul, add>>.  One round is possible while every block   *)
(* that shrinks by d stays at least 1 long.                                 *)
(*                                                                          *)
(* Records: [k |-> "apply", rule, before, after, times] (times -1: the code *)
(* did not apply it, and left the tape alone), and [k |-> "make", counts,   *)
(* result, rule] with counts the lengths at four successive rounds and      *)
(* result "none", "inf" (runs for ever), "sus" or "rule".                   *)
(***************************************************************************)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC, Json, IOUtils

Recs == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES i, now, rounds, verdict

vars == <<i, now, rounds, verdict>>

rec == Recs[i]

At(counts, ch) == counts[ch[1] + 1][ch[2] + 1]

Changed(count, ch) ==
  IF ch[3] = "p" THEN count + ch[4] ELSE count * ch[4] + ch[5]

Shrinks(ch) == ch[3] = "p" /\ ch[4] < 0

(* One round is possible.  A rule that shrinks nothing has no last round,
   and is never applied.                                                   *)
Possible(rule, counts) ==
  /\ \E x \in 1 .. Len(rule) : Shrinks(rule[x])
  /\ \A x \in 1 .. Len(rule) :
        Shrinks(rule[x]) => At(counts, rule[x]) + rule[x][4] >= 1

RECURSIVE Round(_, _, _)
Round(rule, counts, x) ==
  IF x > Len(rule) THEN counts
  ELSE LET ch == rule[x] IN
       Round(rule,
             [counts EXCEPT ![ch[1] + 1][ch[2] + 1] = Changed(@, ch)], x + 1)

Init ==
  /\ i \in 1 .. Len(Recs)
  /\ rounds = 0
  /\ now = IF Recs[i].k = "apply" THEN Recs[i].before ELSE <<>>
  /\ verdict = "run"

ApplyClause ==
  IF rec.times = -1
  THEN IF rounds > 0 THEN "a rule that could be applied was not"
       ELSE IF rec.after # rec.before THEN "the tape changed all the same"
       ELSE "ok"
  ELSE IF rec.times # rounds THEN "wrong number of rounds"
  ELSE IF rec.after # now THEN "wrong counts after the rule"
  ELSE "ok"

Positions == {<<s, x>> : s \in {1, 2}, x \in 1 .. 8}

Here(q) == q[2] <= Len(rec.counts[1][q[1]])

Series(q) == [k \in 1 .. 4 |-> rec.counts[k][q[1]][q[2]]]

Steady(q) == \A k \in 1 .. 3 :
                Series(q)[k + 1] - Series(q)[k] = Series(q)[2] - Series(q)[1]

Falls(q) == \E k \in 1 .. 3 : Series(q)[k + 1] < Series(q)[k]

Rulings(q) == {x \in 1 .. Len(rec.rule) :
                  rec.rule[x][1] = q[1] - 1 /\ rec.rule[x][2] = q[2] - 1}

MakeClause ==
  LET here == {q \in Positions : Here(q)} IN
  CASE rec.result = "inf" ->
         IF \E q \in here : Falls(q)
         THEN "taken to run for ever, but a block shrinks" ELSE "ok"
    [] rec.result = "rule" ->
         IF \E q \in here : Cardinality(Rulings(q)) > 1
         THEN "two changes for one block"
         ELSE IF \E q \in here : Rulings(q) = {} /\ \E k \in 1 .. 3 :
                    Series(q)[k + 1] # Series(q)[k]
         THEN "a change is left out"
         ELSE IF \E q \in here : \E x \in Rulings(q) : \E k \in 1 .. 3 :
                    Changed(Series(q)[k], rec.rule[x]) # Series(q)[k + 1]
         THEN "the rule does not explain the counts"
         ELSE IF ~rec.rust /\ ~(\E q \in here : Falls(q))
         THEN "nothing shrinks, but it is not taken to run for ever"
         ELSE "ok"
    [] OTHER ->
         IF \A q \in here : Steady(q) THEN "no rule for steady changes"
         ELSE "ok"

Apply ==
  /\ verdict = "run"
  /\ rec.k = "apply"
  /\ Possible(rec.rule, now)
  /\ now' = Round(rec.rule, now, 1)
  /\ rounds' = rounds + 1
  /\ UNCHANGED <<i, verdict>>

Decide ==
  /\ verdict = "run"
  /\ rec.k = "apply" => ~Possible(rec.rule, now)
  /\ verdict' = IF rec.k = "apply" THEN ApplyClause ELSE MakeClause
  /\ PrintT(<<"V", i, verdict', rounds>>)
  /\ UNCHANGED <<i, now, rounds>>

Next == Apply \/ Decide

Spec == Init /\ [][Next]_vars
===============================================================================
