---------------------------------- MODULE Num ----------------------------------
(***************************************************************************)
(* What formulas for huge numbers stand for.  A formula is an integer, a    *)
(* sum, a product, an exact quotient or a power:                            *)
(*   <<"i", n>>  <<"+", l, r>>  <<"*", l, r>>  <<"/", num, den>>            *)
(*   <<"^", base, exp>>                                                     *)
(* and <<"s", digits, base, k>>, the integer with these digits, the lowest  *)
(* first, in base^k.                                                        *)
(* Two meanings are given to it.  Residue(x, m) is the number modulo m.     *)
(* Poly(x) is the number itself, exactly, over the one base b of the        *)
(* record:                                                                  *)
(*         (1 / d) * sum of  c * b^e                                        *)
(* as [d |-> d, t |-> <<<<c, e>>, ...>>], where the exponents e are such    *)
(* numbers themselves, falling, and the coefficients c are small.  Sign     *)
(* compares numbers exactly, however high the towers are.                   *)
(*                                                                          *)
(* A record: op, base, a, b (formulas), m, out (what the code computed).    *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC, Json, IOUtils

Recs == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES i, done

vars == <<i, done>>

Abs(n) == IF n < 0 THEN -n ELSE n
Sgn(n) == IF n < 0 THEN -1 ELSE IF n > 0 THEN 1 ELSE 0

-----------------------------------------------------------------------------
(* Residues.  All moduli stay below 46341, so that products fit.           *)

MaxMod == 46340

RECURSIVE Gcd(_, _)
Gcd(x, y) == IF y = 0 THEN x ELSE Gcd(y, x % y)

RECURSIVE PhiFrom(_, _, _)
PhiFrom(n, p, acc) ==
  IF n = 1 THEN acc
  ELSE IF p * p > n THEN (acc \div n) * (n - 1)
  ELSE IF n % p # 0 THEN PhiFrom(n, p + 1, acc)
  ELSE LET RECURSIVE Strip(_)
           Strip(k) == IF k % p = 0 THEN Strip(k \div p) ELSE k
       IN PhiFrom(Strip(n), p + 1, (acc \div p) * (p - 1))

Phi(n) == PhiFrom(n, 2, n)

RECURSIVE PowMod(_, _, _)
PowMod(x, e, m) ==
  IF e = 0 THEN 1 % m
  ELSE LET h == PowMod(x, e \div 2, m)
           s == (h * h) % m
       IN IF e % 2 = 1 THEN (s * (x % m)) % m ELSE s

(* -1: some modulus got too large; -2: a quotient is not exact.            *)
RECURSIVE Residue(_, _)
Residue(x, m) ==
  IF m > MaxMod THEN -1
  ELSE IF x[1] = "i" THEN x[2] % m
  ELSE IF x[1] = "s"
  THEN LET RECURSIVE Digits(_)
           Digits(n) == IF n > Len(x[2]) THEN 0
                        ELSE (x[2][n] + Digits(n + 1) * PowMod(x[3], x[4], m)) % m
       IN Digits(1)
  ELSE IF x[1] = "/"
  THEN LET r == IF x[3] * m > MaxMod \/ x[3] > 40000 THEN -1
                ELSE Residue(x[2], m * x[3])
       IN IF r < 0 THEN r ELSE IF r % x[3] # 0 THEN -2 ELSE r \div x[3]
  ELSE IF x[1] = "^"
  THEN IF x[3][1] = "i" THEN PowMod(x[2], x[3][2], m)
       \* Euler, for exponents of at least log2(m), as those of formulas are
       ELSE LET ph == Phi(m)
                e  == Residue(x[3], ph)
            IN IF e < 0 THEN e ELSE PowMod(x[2], e + ph, m)
  ELSE LET l == Residue(x[2], m)
           r == Residue(x[3], m)
       IN IF l < 0 THEN l ELSE IF r < 0 THEN r
          ELSE IF x[1] = "+" THEN (l + r) % m ELSE (l * r) % m

-----------------------------------------------------------------------------
(* Exact values over base B.                                               *)

Zero == [d |-> 1, t |-> <<>>]

Cap   == 4096            \* coefficients are kept below this
Limit == 2 ^ 20          \* a leading part as large as this decides the sign

(* Terms are sorted by exponent; the walk keeps the value of the terms seen
   so far in units of the power of the last one.                           *)
RECURSIVE Sign(_, _), PlusTerm(_, _, _), PlusTerms(_, _, _), Scale(_, _, _),
          Small(_, _), Minus(_, _, _), Plus(_, _, _), TimesTerms(_, _, _),
          TimesTerm(_, _, _), Times(_, _, _), Walk(_, _, _, _), Up(_, _, _)

(* acc * B^k, or as far as it takes to reach Limit                         *)
Up(B, acc, k) ==
  IF k = 0 \/ Abs(acc) >= Limit THEN acc ELSE Up(B, acc * B, k - 1)

(* <<acc, exponent>> after the terms of t, from acc at exponent e; stops as
   soon as the rest cannot matter                                          *)
Walk(B, t, acc, e) ==
  IF t = <<>> \/ Abs(acc) >= Limit THEN <<acc, e>>
  ELSE LET c == t[1][1]
           f == t[1][2]
       IN IF acc = 0 THEN Walk(B, Tail(t), c, f)
          ELSE LET gap == Small(B, Minus(B, e, f))
                   up  == IF gap > 20 THEN Sgn(acc) * Limit ELSE Up(B, acc, gap)
               IN IF Abs(up) >= Limit THEN <<up, f>>
                  ELSE Walk(B, Tail(t), up + c, f)

Sign(B, v) == Sgn(Walk(B, v.t, 0, Zero)[1])

(* The value of a nonnegative number below 1000, and 1000 for others.      *)
Small(B, v) ==
  LET w == Walk(B, v.t, 0, Zero)
  IN IF w[1] <= 0 THEN 0
     ELSE IF Abs(w[1]) >= Limit THEN 1000
     ELSE IF w[2].t = <<>> THEN
            LET n == w[1] \div v.d IN IF n > 1000 THEN 1000 ELSE n
     ELSE LET k == Small(B, w[2])
              u == IF k > 20 THEN Limit ELSE Up(B, w[1], k)
              n == u \div v.d
          IN IF u >= Limit \/ n > 1000 THEN 1000 ELSE n

One == [d |-> 1, t |-> <<<<1, Zero>>>>]

(* The terms t with c * B^e added, large coefficients carried upwards.     *)
PlusTerm(B, t, ce) ==
  LET c == ce[1]
      e == ce[2]
  IN IF c = 0 THEN t
     ELSE IF Abs(c) >= Cap
     THEN LET q == Sgn(c) * (Abs(c) \div B)
          IN PlusTerm(B, PlusTerm(B, t, <<q, Plus(B, e, One)>>), <<c - q * B, e>>)
     ELSE IF t = <<>> THEN <<ce>>
     ELSE LET s == Sign(B, Minus(B, e, t[1][2]))
          IN IF s > 0 THEN <<ce>> \o t
             ELSE IF s = 0 THEN PlusTerm(B, Tail(t), <<c + t[1][1], e>>)
             ELSE LET rest == PlusTerm(B, Tail(t), ce)
                  IN IF rest = <<>> THEN <<t[1]>>
                     ELSE PlusTerm(B, rest, t[1])

PlusTerms(B, t, u) ==
  IF u = <<>> THEN t ELSE PlusTerms(B, PlusTerm(B, t, u[1]), Tail(u))

Scale(B, t, n) ==
  IF n = 1 THEN t
  ELSE IF t = <<>> THEN <<>>
  ELSE PlusTerm(B, Scale(B, Tail(t), n), <<t[1][1] * n, t[1][2]>>)

Plus(B, v, w) ==
  IF v.d = w.d THEN [d |-> v.d, t |-> PlusTerms(B, v.t, w.t)]
  ELSE [d |-> v.d * w.d,
        t |-> PlusTerms(B, Scale(B, v.t, w.d), Scale(B, w.t, v.d))]

Neg(v) == [d |-> v.d, t |-> [k \in 1 .. Len(v.t) |-> <<- v.t[k][1], v.t[k][2]>>]]

Minus(B, v, w) ==
  IF w.t = <<>> THEN v
  ELSE IF v = w THEN Zero
  ELSE Plus(B, v, Neg(w))

TimesTerm(B, t, ce) ==
  IF t = <<>> THEN <<>>
  ELSE PlusTerm(B, TimesTerm(B, Tail(t), ce),
                <<t[1][1] * ce[1], Plus(B, t[1][2], ce[2])>>)

TimesTerms(B, t, u) ==
  IF u = <<>> THEN <<>>
  ELSE PlusTerms(B, TimesTerm(B, t, u[1]), TimesTerms(B, t, Tail(u)))

Times(B, v, w) == [d |-> v.d * w.d, t |-> TimesTerms(B, v.t, w.t)]

RECURSIVE Poly(_, _)
Poly(B, x) ==
  CASE x[1] = "i" -> [d |-> 1, t |-> PlusTerm(B, <<>>, <<x[2], Zero>>)]
    [] x[1] = "s" ->
         LET RECURSIVE Digits(_)
             Digits(n) ==
               IF n = 0 THEN <<>>
               ELSE IF x[2][n] = 0 THEN Digits(n - 1)
               ELSE <<<<x[2][n], [d |-> 1, t |-> PlusTerm(B, <<>>,
                                     <<x[4] * (n - 1), Zero>>)]>>>> \o Digits(n - 1)
         IN [d |-> 1, t |-> Digits(Len(x[2]))]
    [] x[1] = "+" -> Plus(B, Poly(B, x[2]), Poly(B, x[3]))
    [] x[1] = "*" -> Times(B, Poly(B, x[2]), Poly(B, x[3]))
    [] x[1] = "/" -> LET v == Poly(B, x[2]) IN [v EXCEPT !.d = @ * x[3]]
    [] x[1] = "^" -> [d |-> 1, t |-> <<<<1, Poly(B, x[3])>>>>]

-----------------------------------------------------------------------------

Exact(x, ms) == \A m \in ms : Residue(x, m) # -2

Moduli == {7, 11, 64, 81, 101, 251, 509}

(* Whether formula x is the number that a formula z stands for.            *)
Same(B, x, z) ==
  /\ \A m \in Moduli : LET p == Residue(x, m)
                           q == Residue(z, m)
                       IN p < 0 \/ q < 0 \/ p = q
  /\ Sign(B, Minus(B, Poly(B, x), Poly(B, z))) = 0

NegOne == <<"i", -1>>

Compare(op, s) ==
  CASE op = "lt" -> s < 0
    [] op = "le" -> s <= 0
    [] op = "gt" -> s > 0
    [] op = "ge" -> s >= 0

Verdict(r) ==
  CASE r.op = "add" ->
         IF Same(r.base, r.out, <<"+", r.a, r.b>>) THEN "ok" ELSE "wrong sum"
    [] r.op = "sub" ->
         IF Same(r.base, r.out, <<"+", r.a, <<"*", NegOne, r.b>>>>)
         THEN "ok" ELSE "wrong difference"
    [] r.op = "mul" ->
         IF Same(r.base, r.out, <<"*", r.a, r.b>>)
         THEN "ok" ELSE "wrong product"
    [] r.op = "neg" ->
         IF Same(r.base, r.out, <<"*", NegOne, r.a>>)
         THEN "ok" ELSE "wrong negation"
    [] r.op = "div" ->
         IF Residue(r.a, r.m) \notin {-1, 0} THEN "outside"
         ELSE IF ~Exact(r.out, {2, 3, 5}) THEN "a quotient that is not exact"
         ELSE IF Same(r.base, <<"*", <<"i", r.m>>, r.out>>, r.a)
         THEN "ok" ELSE "wrong quotient"
    [] r.op = "mod" ->
         LET w == Residue(r.a, r.m) IN
         IF w < 0 THEN "outside"
         ELSE IF w = r.rem THEN "ok" ELSE "wrong residue"
    [] r.op = "divmod" ->
         LET w == Residue(r.a, r.m) IN
         IF w < 0 THEN "outside"
         ELSE IF w # r.rem THEN "wrong residue"
         ELSE IF Same(r.base, <<"+", <<"*", <<"i", r.m>>, r.out>>, <<"i", r.rem>>>>, r.a)
         THEN "ok" ELSE "wrong quotient"
    [] r.op = "eq" ->
         IF r.says THEN IF Sign(r.base, Minus(r.base, Poly(r.base, r.a),
                                              Poly(r.base, r.b))) = 0
                        THEN "ok" ELSE "wrong equality"
         ELSE IF r.a = r.b THEN "the same formula is not equal" ELSE "ok"
    [] OTHER ->
         IF Compare(r.op, Sign(r.base, Minus(r.base, Poly(r.base, r.a),
                                             Poly(r.base, r.b)))) = r.says
         THEN "ok" ELSE "wrong comparison"

Init == i \in 1 .. Len(Recs) /\ done = FALSE

Judge == /\ ~done /\ done' = TRUE
         /\ PrintT(<<"V", i, Verdict(Recs[i])>>)
         /\ UNCHANGED i

Next == Judge
===============================================================================
