--------------------------------- MODULE Written --------------------------------
(***************************************************************************)
(* Formulas as they are written, spelled out, and estimated.                *)
(*                                                                          *)
(*  "text"    The tokens of a written formula, read by the usual rules of   *)
(*            arithmetic: <<"n", formula>> an integer, <<"o", sign>> with   *)
(*            one of ( ) + - * // **, <<"~", minus, k>> about 10^k, and     *)
(*            <<"?">> too long to show.  What is read is the number.        *)
(*  "int"     Decimal digits, the lowest first, in groups of four: they     *)
(*            are those of the number.  places: an order of magnitude of    *)
(*            it, or -1; about: the same as an estimate 10^about.           *)
(*  "tower"   An estimate as a tower of tens of some height.                *)
(*  "power"   A power was made of any whole number; ends are its residues.  *)
(***************************************************************************)
EXTENDS Num

-----------------------------------------------------------------------------
(* Reading.                                                                 *)

Bad == <<"bad">>

Is(ts, k, s) == k <= Len(ts) /\ ts[k][1] = "o" /\ ts[k][2] = s

(* Each gives <<formula, where it goes on>>.                                *)
RECURSIVE Sum(_, _), SumOn(_, _, _), Prod(_, _), ProdOn(_, _, _), Signed(_, _),
          Raise(_, _), Atom(_, _)

Atom(ts, k) ==
  IF k > Len(ts) THEN <<Bad, k>>
  ELSE IF ts[k][1] = "n" THEN <<ts[k][2], k + 1>>
  ELSE IF Is(ts, k, "(")
  THEN LET s == Sum(ts, k + 1)
       IN IF Is(ts, s[2], ")") THEN <<s[1], s[2] + 1>> ELSE <<Bad, k>>
  ELSE <<Bad, k>>

Raise(ts, k) ==
  LET a == Atom(ts, k)
  IN IF ~Is(ts, a[2], "**") THEN a
     ELSE LET e == Signed(ts, a[2] + 1)
          IN IF a[1][1] # "i" \/ e[1] = Bad THEN <<Bad, e[2]>>
             ELSE <<<<"^", a[1][2], e[1]>>, e[2]>>

Signed(ts, k) ==
  IF Is(ts, k, "-")
  THEN LET s == Signed(ts, k + 1)
       IN IF s[1] = Bad THEN s
          ELSE IF s[1][1] = "i" THEN <<<<"i", - s[1][2]>>, s[2]>>
          ELSE <<<<"*", NegOne, s[1]>>, s[2]>>
  ELSE Raise(ts, k)

ProdOn(ts, x, k) ==
  IF x = Bad THEN <<Bad, k>>
  ELSE IF Is(ts, k, "*")
  THEN LET y == Signed(ts, k + 1)
       IN IF y[1] = Bad THEN y ELSE ProdOn(ts, <<"*", x, y[1]>>, y[2])
  ELSE IF Is(ts, k, "//")
  THEN LET y == Signed(ts, k + 1)
       IN IF y[1][1] # "i" THEN <<Bad, k>>
          ELSE ProdOn(ts, <<"/", x, y[1][2]>>, y[2])
  ELSE <<x, k>>

Prod(ts, k) == LET x == Signed(ts, k) IN ProdOn(ts, x[1], x[2])

SumOn(ts, x, k) ==
  IF x = Bad THEN <<Bad, k>>
  ELSE IF Is(ts, k, "+") \/ Is(ts, k, "-")
  THEN LET y == Prod(ts, k + 1)
       IN IF y[1] = Bad THEN y
          ELSE SumOn(ts, IF Is(ts, k, "+") THEN <<"+", x, y[1]>>
                         ELSE <<"+", x, <<"*", NegOne, y[1]>>>>, y[2])
  ELSE <<x, k>>

Sum(ts, k) == LET x == Prod(ts, k) IN SumOn(ts, x[1], x[2])

Read(ts) == LET s == Sum(ts, 1)
            IN IF s[2] = Len(ts) + 1 THEN s[1] ELSE Bad

(* The numbers it is written with                                          *)
RECURSIVE Leaves(_)
Leaves(x) ==
  CASE x[1] \in {"i", "s"} -> 1
    [] x[1] = "^" -> 1 + Leaves(x[3])
    [] x[1] = "/" -> 1 + Leaves(x[2])
    [] OTHER -> Leaves(x[2]) + Leaves(x[3])

-----------------------------------------------------------------------------
(* Decimals.                                                                *)

RECURSIVE Mod(_, _, _)
Mod(groups, m, k) ==
  IF k > Len(groups) THEN 0
  ELSE (groups[k] + (10000 % m) * Mod(groups, m, k + 1)) % m

Primes == {7, 64, 81, 101, 125, 1013, 2003, 4001}

Digits(g) == IF g < 10 THEN 1 ELSE IF g < 100 THEN 2 ELSE IF g < 1000 THEN 3 ELSE 4

Places(groups) == 4 * (Len(groups) - 1) + Digits(groups[Len(groups)])

(* How an integer of this many groups is shown: exactly when it is below
   10^12, else about 10^k, rounded on the scale of logarithms.             *)
ShownRight(r) ==
  LET g == r.groups
      n == Places(g)
      top == LET t == g[Len(g)]
                 u == IF Len(g) > 1 THEN g[Len(g) - 1] ELSE 0
             IN CASE t >= 1000 -> t
                  [] t >= 100  -> t * 10 + u \div 1000
                  [] t >= 10   -> t * 100 + u \div 100
                  [] OTHER     -> t * 1000 + u \div 10
  IN IF n <= 12
     THEN IF r.exact THEN "ok" ELSE "a number below 10^12 is not written out"
     ELSE IF r.exact THEN "a number that should be shortened is written out"
     ELSE IF r.minus # r.neg THEN "wrong sign"
     ELSE IF r.k = n - 1 /\ top <= 3163 THEN "ok"
     ELSE IF r.k = n /\ top >= 3162 THEN "ok"
     ELSE "wrong order of magnitude"

IntVerdict(r) ==
  LET v(m) == LET w == Mod(r.groups, m, 1) IN IF r.neg THEN (- w) % m ELSE w
      n == Places(r.groups)
      slack == 1 + Leaves(r.a)
  IN IF \E m \in Primes : LET w == Residue(r.a, m) IN w >= 0 /\ w # v(m)
     THEN "wrong digits"
     ELSE IF Sign(r.base, Poly(r.base, r.a)) # (IF r.neg THEN -1 ELSE 1)
     THEN "wrong sign"
     ELSE IF r.places # -1 /\ Abs(r.places - n) > slack
     THEN "wrong number of places"
     ELSE IF r.about # -1 /\ Abs(r.about - n) > slack
     THEN "wrong estimate"
     ELSE "ok"

-----------------------------------------------------------------------------
(* Towers of tens.                                                          *)

RECURSIVE Tens(_)
Tens(h) == IF h = 0 THEN <<"i", 1>> ELSE <<"^", 10, Tens(h - 1)>>

Below(x, y) == Sign(10, Minus(10, Poly(10, y), Poly(10, x))) > 0

TowerVerdict(r) ==
  IF Below(Tens(r.height - 1), r.a) /\ Below(r.a, Tens(r.height + 1))
  THEN "ok" ELSE "wrong height"

(* 10^(k - slack) <= x <= 10^(k + slack)                                    *)
AboutVerdict(r) ==
  LET slack == 1 + Leaves(r.a)
  IN IF Below(r.a, <<"^", 10, <<"+", r.k, <<"i", - slack>>>>>>)
        \/ Below(<<"^", 10, <<"+", r.k, <<"i", slack>>>>>>, r.a)
     THEN "wrong estimate" ELSE "ok"

TextVerdict(r) ==
  IF \E k \in 1 .. Len(r.tokens) : r.tokens[k][1] = "?"
  THEN IF Leaves(r.a) > 120 THEN "ok" ELSE "a short formula is not shown"
  ELSE LET x == Read(r.tokens)
       IN IF x = Bad THEN "not a formula"
          ELSE IF r.base = 0
          THEN IF \A m \in Primes : LET p == Residue(x, m)
                                        q == Residue(r.a, m)
                                    IN p < 0 \/ q < 0 \/ p = q
               THEN "ok" ELSE "another number is written"
          ELSE IF Same(r.base, x, r.a) THEN "ok" ELSE "another number is written"

PowerVerdict(r) ==
  IF \A k \in 1 .. Len(r.ends) :
        LET m == r.ends[k][1]
            w == IF r.exp[1] = "i" THEN PowMod(Mod(r.groups, m, 1), r.exp[2], m)
                 ELSE LET e == Residue(r.exp, Phi(m))
                      IN IF e < 0 THEN -1
                         ELSE PowMod(Mod(r.groups, m, 1), e + Phi(m), m)
        IN w = -1 \/ w = r.ends[k][2]
  THEN "ok" ELSE "another power"

WrittenVerdict(r) ==
  CASE r.op = "text"  -> TextVerdict(r)
    [] r.op = "int"   -> IntVerdict(r)
    [] r.op = "shown" -> ShownRight(r)
    [] r.op = "tower" -> TowerVerdict(r)
    [] r.op = "about" -> AboutVerdict(r)
    [] r.op = "power" -> PowerVerdict(r)

JudgeWritten == /\ ~done /\ done' = TRUE
                /\ PrintT(<<"V", i, WrittenVerdict(Recs[i])>>)
                /\ UNCHANGED i

WrittenNext == JudgeWritten
===============================================================================
