---------------------------------- MODULE Norm ----------------------------------
(***************************************************************************)
(* Renaming programs.  Two programs are the same machine when one becomes   *)
(* the other by renaming states (the start kept), renaming colors (the      *)
(* blank kept) and possibly mirroring.  Normal forms are judged as such     *)
(* renamings; which renaming is the normal one is spelled out below.        *)
(*                                                                          *)
(* A record: kind, p (rows) and outs, the normal forms computed from p and  *)
(* from variants of p.                                                      *)
(***************************************************************************)
EXTENDS TM, Json, IOUtils

Recs == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES i, done

vars == <<i, done>>

Perms(n) == {f \in [0 .. n - 1 -> 0 .. n - 1] :
               /\ f[0] = 0
               /\ \A a, b \in 0 .. n - 1 : f[a] = f[b] => a = b}

(* What p[q] at h becomes, its state aside.                                *)
Alike(a, b, t, m) ==
  IF a = <<>> THEN b = <<>>
  ELSE /\ b # <<>>
       /\ b[1] = t[a[1]]
       /\ b[2] = IF m THEN 1 - a[2] ELSE a[2]

(* With colors renamed by t, and mirrored if m, states have to be renamed in
   one way: what q leads to becomes what s[q] leads to.  s is a function on
   the states so far; todo are those whose rows are still to be looked at.
   All states can be reached, so that all are renamed in the end.          *)
RECURSIVE Follows(_, _, _, _, _, _)
Follows(p, out, t, m, s, todo) ==
  IF todo = {} THEN TRUE
  ELSE LET q == CHOOSE x \in todo : TRUE
           hs == 0 .. Len(p[1]) - 1
           I(h) == Instr(p, q, h)
           J(h) == Instr(out, s[q], t[h])
           pairs == {<<I(h)[3], J(h)[3]>> : h \in {x \in hs : I(x) # <<>>}}
       IN IF ~ \A h \in hs : Alike(I(h), J(h), t, m) THEN FALSE
          ELSE LET all == pairs \cup {<<x, s[x]>> : x \in DOMAIN s}
                   dom == {x[1] : x \in all} IN
            IF \E x, y \in all : (x[1] = y[1]) # (x[2] = y[2]) THEN FALSE
            ELSE Follows(p, out, t, m,
                         [x \in dom |-> (CHOOSE y \in all : y[1] = x)[2]],
                         (todo \ {q}) \cup (dom \ DOMAIN s))

SameShape(p, out) ==
  /\ Len(out) = Len(p)
  /\ \A q \in 1 .. Len(out) : Len(out[q]) = Len(p[1])

Equivalent(p, out, mirror) ==
  /\ SameShape(p, out)
  /\ \E t \in Perms(Len(p[1])) :
        \E m \in (IF mirror THEN BOOLEAN ELSE {FALSE}) :
          Follows(p, out, t, m, [x \in {0} |-> 0], {0})

(* The instructions in the order they are written.                         *)
RECURSIVE Flat(_)
Flat(rows) == IF rows = <<>> THEN <<>> ELSE Head(rows) \o Flat(Tail(rows))

(* New numbers of what is mentioned come in order, 0 apart.                *)
RECURSIVE InOrder(_, _)
InOrder(seq, next) ==
  IF seq = <<>> THEN TRUE
  ELSE IF Head(seq) > next THEN FALSE
  ELSE InOrder(Tail(seq), IF Head(seq) = next THEN next + 1 ELSE next)

RECURSIVE Pick(_, _)
Pick(ins, k) ==
  IF ins = <<>> THEN <<>>
  ELSE (IF Head(ins) = <<>> THEN <<>> ELSE <<Head(ins)[k]>>)
       \o Pick(Tail(ins), k)

Normal(out) ==
  LET ins == Flat(out) IN
  IF ~InOrder(Pick(ins, 3), 1) THEN "states are not in the order they are mentioned"
  \* with four colors or more there need not be such an order: renaming
  \* colors moves the columns about
  ELSE IF Len(out[1]) <= 3 /\ ~InOrder(Pick(ins, 1), 1) THEN "colors are not in the order they are mentioned"
  ELSE IF out[1][1][2] # 1 THEN "the first instruction does not go right"
  ELSE "ok"

(* The order in which a run from the blank tape comes to states and colors. *)
RECURSIVE Meets(_, _, _, _, _)
Meets(p, c, qs, hs, k) ==
  LET qs2 == IF \E x \in 1 .. Len(qs) : qs[x] = St(c) THEN qs ELSE Append(qs, St(c))
      hs2 == IF \E x \in 1 .. Len(hs) : hs[x] = Scan(c) THEN hs ELSE Append(hs, Scan(c))
  IN IF (Len(qs2) = Len(p) /\ Len(hs2) = Len(p[1])) \/ k = 0 \/ Undefined(p, c)
     THEN <<qs2, hs2>>
     ELSE Meets(p, Step(p, c), qs2, hs2, k - 1)

TreeNormal(p, out) ==
  LET m == Meets(p, Init0, <<>>, <<>>, 3000)
      n == Meets(out, Init0, <<>>, <<>>, 3000)
  IN IF Len(m[1]) # Len(p) \/ Len(m[2]) # Len(p[1]) THEN "outside"
     ELSE IF \E x \in 1 .. Len(n[1]) : n[1][x] # x - 1
     THEN "states are not in the order the run comes to them"
     ELSE IF \E x \in 1 .. Len(n[2]) : n[2][x] # x - 1
     THEN "colors are not in the order the run comes to them"
     ELSE "ok"

Verdict(r) ==
  LET out == r.outs[1] IN
  IF ~Equivalent(r.p, out, r.kind = "norm")
  THEN "the normal form is another machine"
  ELSE IF r.kind = "norm"
  THEN IF Normal(out) # "ok" THEN Normal(out)
       ELSE IF \E k \in 2 .. Len(r.outs) : r.outs[k] # out
       THEN "variants of one machine get different normal forms"
       ELSE "ok"
  ELSE IF TreeNormal(r.p, out) # "ok" THEN TreeNormal(r.p, out)
  ELSE IF \E k \in 2 .. Len(r.outs) : r.outs[k] # out
  THEN "variants of one machine get different normal forms"
  ELSE "ok"

Init == i \in 1 .. Len(Recs) /\ done = FALSE

Judge == /\ ~done /\ done' = TRUE
         /\ PrintT(<<"V", i, Verdict(Recs[i])>>)
         /\ UNCHANGED i

Next == Judge
===============================================================================
