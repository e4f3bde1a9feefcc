------------------------------ MODULE ControlGraph ------------------------------
(***************************************************************************)
(* The graph of which state leads to which, and what the tools and the      *)
(* compiled extension say about it.  Reachability is a walk: a behaviour    *)
(* starts at the last state and follows arrows that leave their state, and  *)
(* collects where it has been; the verdict comes at the end of it.          *)
(***************************************************************************)
EXTENDS TM, Json, IOUtils

Recs == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES i, seen, todo, phase

vars == <<i, seen, todo, phase>>

r == Recs[i]
p == r.p
NS == Len(p)
NC == Len(p[1])
States == 0 .. NS - 1

Exits(q) == {Instr(p, q, h)[3] : h \in {h \in 0 .. NC - 1 : Instr(p, q, h) # <<>>}}
Entries(q) == {x \in States : q \in Exits(x)}
Leaves(q) == Exits(q) \ {q}

SetOf(s) == {s[k] : k \in 1 .. Len(s)}
Same(seq, S) == SetOf(seq) = S /\ Len(seq) = Cardinality(S)

Alphabet == "ABCDEFGHIJKLMNOPQRSTUVWXYZ"
RECURSIVE FlatFrom(_, _)
FlatFrom(q, h) ==
  IF q = NS THEN ""
  ELSE IF h = NC THEN FlatFrom(q + 1, 0)
  ELSE LET x == Instr(p, q, h) IN
       (IF x = <<>> THEN "." ELSE SubSeq(Alphabet, x[3] + 1, x[3] + 1))
       \o FlatFrom(q, h + 1)

(* Slots in the order they are written, and where a state is mentioned.    *)
Mention(q) == {k \in 0 .. NS * NC - 1 :
                 LET x == Instr(p, k \div NC, k % NC) IN x # <<>> /\ x[3] = q}
SetMin(S) == CHOOSE x \in S : \A y \in S : x <= y
IsNormal ==
  /\ \A q \in 1 .. NS - 1 : Mention(q) # {}
  /\ \A q \in 1 .. NS - 2 : SetMin(Mention(q)) < SetMin(Mention(q + 1))

(* States reached from q by one arrow or more, staying out of none.        *)
RECURSIVE Closure(_)
Closure(S) ==
  LET T == S \cup UNION {Exits(x) : x \in S} IN IF T = S THEN S ELSE Closure(T)
ReachFrom(q) == Closure(Exits(q))

Kernel == {r.reduced[k][1] : k \in 1 .. Len(r.reduced)}
KArrows == UNION {{<<r.reduced[k][1], r.reduced[k][2][j]>> :
                     j \in 1 .. Len(r.reduced[k][2])} : k \in 1 .. Len(r.reduced)}
KExits(q) == {a[2] : a \in {a \in KArrows : a[1] = q}}
KEntries(q) == {a[1] : a \in {a \in KArrows : a[2] = q}}
Tight == \A q \in States : Cardinality(Leaves(q)) >= 2
                          /\ Cardinality(Entries(q) \ {q}) # 1

KernelClause ==
  IF \E a \in KArrows : a[1] = a[2] THEN "an arrow to itself is left"
  ELSE IF \E a \in KArrows : a[2] \notin Kernel THEN "an arrow leads out"
  ELSE IF \E q \in Kernel : Cardinality(KExits(q)) < 2 THEN "a single exit is left"
  ELSE IF \E q \in Kernel : Cardinality(KEntries(q)) = 1
       THEN "a single entry is left"
  ELSE IF \E a \in KArrows : a[2] \notin ReachFrom(a[1])
       THEN "an arrow no path explains"
  ELSE IF Tight /\ KArrows # {<<a, b>> \in States \X States : b \in Leaves(a)}
       THEN "more was cut than had to be"
  ELSE IF r.simple # (Kernel = {}) THEN "simple is not the empty kernel"
  ELSE "ok"

Verdict ==
  LET conn == (\A q \in States : Leaves(q) # {}) /\ 0 \in seen
      refl == {q \in States : q \in Exits(q)}
      zref == {q \in States : LET x == Instr(p, q, 0) IN x # <<>> /\ x[3] = q}
      edisp == \A q \in States : Cardinality(Entries(q)) = NC
      xdisp == \A q \in States : Cardinality(Exits(q)) = NC
  IN
  IF r.flat # FlatFrom(0, 0) THEN "the arrows are shown wrongly"
  ELSE IF \E q \in States : ~Same(r.exits[q + 1], Exits(q)) THEN "wrong exit points"
  ELSE IF \E q \in States : ~Same(r.entries[q + 1], Entries(q)) THEN "wrong entry points"
  ELSE IF r.connected # conn THEN "connected: wrong answer"
  ELSE IF r.rconnected # conn THEN "connected, compiled: wrong answer"
  ELSE IF r.normal # IsNormal THEN "normal: wrong answer"
  ELSE IF ~Same(r.reflexive, refl) \/ r.irrefl # (refl = {}) THEN "reflexive: wrong answer"
  ELSE IF ~Same(r.zreflexive, zref) \/ r.zrefl # (zref # {}) THEN "zero-reflexive: wrong answer"
  ELSE IF r.edisp # edisp \/ r.xdisp # xdisp \/ r.disp # (edisp /\ xdisp)
       THEN "dispersed: wrong answer"
  ELSE KernelClause

Init ==
  /\ i \in 1 .. Len(Recs)
  /\ seen = {}
  /\ todo = {Len(Recs[i].p) - 1}
  /\ phase = "walk"

Walk ==
  /\ phase = "walk" /\ todo # {}
  /\ LET q == CHOOSE q \in todo : TRUE IN
       /\ seen' = seen \cup Leaves(q)
       /\ todo' = (todo \ {q}) \cup (Leaves(q) \ seen)
  /\ UNCHANGED <<i, phase>>

Judge ==
  /\ phase = "walk" /\ todo = {}
  /\ phase' = "done"
  /\ PrintT(<<"V", i, Verdict>>)
  /\ UNCHANGED <<i, seen, todo>>

Next == Walk \/ Judge
===============================================================================
