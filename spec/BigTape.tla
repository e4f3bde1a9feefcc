--------------------------------- MODULE BigTape --------------------------------
(***************************************************************************)
(* Tapes whose blocks are too long to write out: the lengths are formulas   *)
(* (see Num), and the numbers they stand for are what counts.               *)
(*                                                                          *)
(* A tape is [l, h, r]: blocks <<color, length>>, the nearest first, and    *)
(* the scanned color.  Three things are done with it:                       *)
(*                                                                          *)
(*  "step"   The head prints, moves to one side, and goes on over the next  *)
(*           block if that has the color it has scanned and it is to skip.  *)
(*  "apply"  A rule is applied as often as it goes.  Its changes say how    *)
(*           the length of a block changes in one round: by d ("p"), from   *)
(*           x to d * x + a ("m"), or by operations ("o").  As long as      *)
(*           every block that shrinks by d is longer than d, there is one   *)
(*           more round to go.                                              *)
(*  "make"   A rule is made of four rounds; each change must lead from      *)
(*           every round to the next.                                       *)
(*                                                                          *)
(* The base of a record is the one base of all its powers, or 0 when there  *)
(* are several; then residues decide alone.                                 *)
(***************************************************************************)
EXTENDS Num

I(n) == <<"i", n>>
Add(x, y) == <<"+", x, y>>
Mul(x, y) == <<"*", x, y>>
Sub(x, y) == Add(x, Mul(NegOne, y))

IsInt(x) == x[1] = "i"

Equal(B, x, z) ==
  IF IsInt(x) /\ IsInt(z) THEN x = z
  ELSE IF B # 0 THEN Same(B, x, z)
  ELSE \A m \in Moduli \cup {72, 343, 625, 1013} :
         LET p == Residue(x, m)
             q == Residue(z, m)
         IN p < 0 \/ q < 0 \/ p = q

(* 1, 0 or -1; 2 when it cannot be told                                     *)
SignOf(B, x) ==
  IF IsInt(x) THEN Sgn(x[2])
  ELSE IF B # 0 THEN Sign(B, Poly(B, x)) ELSE 2

-----------------------------------------------------------------------------
(* Steps.                                                                   *)

Rest(s) == IF s = <<>> THEN <<>> ELSE Tail(s)

StepOn(t, right, color, skip) ==
  LET pull  == IF right THEN t.r ELSE t.l
      push  == IF right THEN t.l ELSE t.r
      over  == skip /\ pull # <<>> /\ pull[1][1] = t.h
      n     == IF over THEN Add(I(1), pull[1][2]) ELSE I(1)
      near  == IF over THEN Tail(pull) ELSE pull
      head  == IF near = <<>> THEN 0 ELSE near[1][1]
      left  == IF near = <<>> THEN <<>>
               ELSE IF near[1][2] = I(1) THEN Tail(near)
               ELSE <<<<head, Sub(near[1][2], I(1))>>>> \o Tail(near)
      grown == IF push # <<>> /\ push[1][1] = color
               THEN <<<<color, Add(push[1][2], n)>>>> \o Tail(push)
               ELSE IF push = <<>> /\ color = 0 THEN <<>>
               ELSE <<<<color, n>>>> \o push
  IN [n |-> n,
      tape |-> IF right THEN [l |-> grown, h |-> head, r |-> left]
               ELSE [l |-> left, h |-> head, r |-> grown]]

SameBlocks(B, s, u) ==
  /\ Len(s) = Len(u)
  /\ \A k \in 1 .. Len(s) : s[k][1] = u[k][1] /\ Equal(B, s[k][2], u[k][2])

RECURSIVE Marked(_)
Marked(s) ==
  IF s = <<>> THEN I(0)
  ELSE IF s[1][1] = 0 THEN Marked(Tail(s))
  ELSE Add(s[1][2], Marked(Tail(s)))

Marks(t) == Add(I(IF t.h = 0 THEN 0 ELSE 1), Add(Marked(t.l), Marked(t.r)))

(* Sums of plain lengths are plain.                                        *)
RECURSIVE Plain(_)
Plain(x) ==
  IF x[1] = "+" THEN LET l == Plain(x[2])
                         r == Plain(x[3])
                     IN IF IsInt(l) /\ IsInt(r) THEN I(l[2] + r[2])
                        ELSE Add(l, r)
  ELSE IF x[1] = "*" THEN LET l == Plain(x[2])
                              r == Plain(x[3])
                          IN IF IsInt(l) /\ IsInt(r) /\ Abs(l[2]) < 100
                                 /\ Abs(r[2]) < 2 ^ 24
                             THEN I(l[2] * r[2]) ELSE Mul(l, r)
  ELSE x

StepVerdict(r) ==
  LET b == [l |-> r.before[1], h |-> r.before[2], r |-> r.before[3]]
      a == [l |-> r.after[1], h |-> r.after[2], r |-> r.after[3]]
      s == StepOn(b, r.shift, r.color, r.skip)
      norm(u) == [k \in 1 .. Len(u) |-> <<u[k][1], Plain(u[k][2])>>]
  IN IF ~Equal(r.base, r.n, Plain(s.n)) THEN "wrong number of cells"
     ELSE IF a.h # s.tape.h THEN "wrong scanned color"
     ELSE IF ~SameBlocks(r.base, a.l, norm(s.tape.l))
             \/ ~SameBlocks(r.base, a.r, norm(s.tape.r))
     THEN "wrong blocks after a step"
     ELSE IF ~Equal(r.base, r.marks, Plain(Marks(a))) THEN "wrong marks"
     ELSE "ok"

-----------------------------------------------------------------------------
(* Operations on one length, and what cannot be followed.                   *)

Lost == <<"?">>

(* What has no such logarithm                                              *)
None == <<"!">>

(* The formula whose value this is                                         *)
RECURSIVE Tree(_, _)
Tree(B, v) ==
  LET RECURSIVE Sum(_)
      Sum(t) ==
        IF t = <<>> THEN I(0)
        ELSE LET one == IF t[1][2].t = <<>> THEN I(t[1][1])
                        ELSE Mul(I(t[1][1]), <<"^", B, Tree(B, t[1][2])>>)
             IN IF Len(t) = 1 THEN one ELSE Add(one, Sum(Tail(t)))
  IN IF v.d = 1 THEN Sum(v.t) ELSE <<"/", Sum(v.t), v.d>>

Log(B, b, x) ==
  IF x[1] = "^" THEN IF x[2] = b THEN x[3] ELSE Lost
  ELSE IF x[1] \in {"i", "s"} THEN Lost
  ELSE IF B # b THEN Lost
  ELSE LET v == Poly(B, x)
       IN IF v.d = 1 /\ Len(v.t) = 1 /\ v.t[1][1] = 1
          THEN Tree(B, v.t[1][2]) ELSE None

Do(B, op, x) ==
  IF x \in {Lost, None} THEN x
  ELSE CASE op[1] = "+"  -> Add(x, I(op[2]))
         [] op[1] = "*"  -> Mul(x, I(op[2]))
         [] op[1] = "//" -> IF Residue(x, op[2]) = 0 THEN <<"/", x, op[2]>>
                            ELSE Lost
         [] op[1] = "**" -> <<"^", op[2], x>>
         [] op[1] = "~"  -> Log(B, op[2], x)

RECURSIVE DoAll(_, _, _, _)
DoAll(B, ops, k, x) ==
  IF k > Len(ops) THEN x ELSE DoAll(B, ops, k + 1, Do(B, ops[k], x))

RECURSIVE Often(_, _, _, _)
Often(B, ops, n, x) ==
  IF n = 0 \/ x \in {Lost, None} THEN x ELSE Often(B, ops, n - 1, DoAll(B, ops, 1, x))

-----------------------------------------------------------------------------
(* Rules.                                                                   *)

Falls(c) == c.k = "p" /\ c.d < 0

RECURSIVE Raised(_, _)
Raised(n, k) == IF k = 0 THEN 1 ELSE n * Raised(n, k - 1)

(* c.d, to the power of the rounds                                          *)
Power(r, c) ==
  <<"^", c.root[1], IF c.root[2] = 1 THEN r.times
                    ELSE Plain(Mul(I(c.root[2]), r.times))>>

Moved(r, c) ==
  CASE c.k = "p" -> Equal(r.base, c.after, Add(c.before, Mul(I(c.d), r.times)))
    [] c.k = "m" ->
         LET p == Power(r, c)
             B == IF r.base \in {0, c.root[1]} THEN r.base ELSE 0
         IN /\ Raised(c.root[1], c.root[2]) = c.d
            /\ Equal(B, Mul(I(c.d - 1), c.after),
                     Add(Mul(I(c.d - 1), Mul(c.before, p)),
                         Mul(I(c.a), Sub(p, I(1)))))
    [] c.k = "o" ->
         LET w == IF r.times[2] > 20 THEN Lost
                  ELSE Often(r.base, c.ops, r.times[2], c.before)
         IN w = Lost \/ (w # None /\ Equal(r.base, c.after, w))

(* With several bases the last round cannot be made out, but it must end.   *)
ApplyVerdict(r) ==
  LET ix   == 1 .. Len(r.changes)
      down == {k \in ix : Falls(r.changes[k])}
      More(k, x) == SignOf(r.base, Add(x, I(r.changes[k].d)))
      Signed(k, x) == IF IsInt(x) THEN Sgn(x[2] + r.changes[k].d)
                      ELSE More(k, x)
  IN IF ~r.applied
     THEN IF \E k \in ix : r.changes[k].after # r.changes[k].before
                           /\ ~Equal(r.base, r.changes[k].after, r.changes[k].before)
          THEN "the tape changed all the same"
          ELSE IF down # {} /\ \A k \in down : Signed(k, r.changes[k].before) = 1
          THEN "a rule that could be applied was not" ELSE "ok"
     ELSE IF down = {} THEN "a rule without a last round"
     ELSE IF \E k \in ix : ~Moved(r, r.changes[k])
     THEN "wrong counts after the rule"
     ELSE IF SignOf(r.base, r.times) \in {0, -1} THEN "applied no times"
     ELSE IF \E k \in down : SignOf(r.base, r.changes[k].after) \in {0, -1}
     THEN "a block has been used up"
     ELSE IF \A k \in down : Signed(k, r.changes[k].after) = 1
     THEN "it could have been applied more often"
     ELSE "ok"

MakeVerdict(r) ==
  IF \E k \in 1 .. Len(r.changes) : \E n \in 1 .. 3 :
       LET c == r.changes[k]
           w == CASE c.k = "p" -> Add(c.counts[n], I(c.d))
                  [] c.k = "m" -> Add(Mul(I(c.d), c.counts[n]), I(c.a))
                  [] c.k = "o" -> DoAll(r.base, c.ops, 1, c.counts[n])
       IN w # Lost /\ (w = None \/ ~Equal(r.base, c.counts[n + 1], Plain(w)))
  THEN "the rule does not explain the counts" ELSE "ok"

BigVerdict(r) ==
  CASE r.op = "step"  -> StepVerdict(r)
    [] r.op = "apply" -> ApplyVerdict(r)
    [] r.op = "make"  -> MakeVerdict(r)
    [] OTHER -> "a block that the rule does not name changed"

JudgeBig == /\ ~done /\ done' = TRUE
            /\ PrintT(<<"V", i, BigVerdict(Recs[i])>>)
            /\ UNCHANGED i

BigNext == JudgeBig
===============================================================================
