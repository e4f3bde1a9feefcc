--------------------------------- MODULE Segment ---------------------------------
(***************************************************************************)
(* A machine seen through a window of n cells.  Within the window it does   *)
(* what it does; when its head has left, on the left or on the right,       *)
(* nothing is known of the tape there: it may take any instruction of its   *)
(* state and stay outside (in another state), or come back through an       *)
(* instruction that moves towards the window.  It starts on blanks, with    *)
(* its head at any of the n + 2 places (outside on the left, on one of the  *)
(* cells, outside on the right).                                            *)
(*                                                                          *)
(* A machine that halts, halts with its head at whatever place the window   *)
(* is laid about it.  So when for every state that has an undefined         *)
(* instruction there is a place it can not come to halt in, it never halts; *)
(* nor does it when, started within the window, it never leaves it and does *)
(* not halt.  Windows are tried from 2 cells on, until one shows it, or     *)
(* the machine halts in one.                                                *)
(*                                                                          *)
(* A record holds a program and, for some largest windows, the real answer: *)
(* the size of the first window that shows it, or -1.                       *)
(***************************************************************************)
EXTENDS TM, Json, IOUtils

Recs == ndJsonDeserialize(IOEnv.TRACE)

(* n: the window; seen: what the machine can come to, new: what was added   *)
(* last; may: the answers there can be, the size of a window or -1 when the *)
(* machine halts in one.  They are one, but where a window that shows the   *)
(* run from blanks to end or to go on also lets it come to halt in every    *)
(* place: which of the two is noticed first is left open, and after the     *)
(* second the search goes on with larger windows.                           *)
VARIABLES i, n, seen, new, may, phase

vars == <<i, n, seen, new, may, phase>>

rec == Recs[i]
p == rec.p

MaxOf(s) == CHOOSE x \in s : \A y \in s : y <= x

Used == {<<q, h>> \in (0 .. Len(p) - 1) \X (0 .. rec.nc - 1) :
           Instr(p, q, h) # <<>>}
Colors == 0 .. MaxOf({x[2] : x \in Used} \cup
                     {Instr(p, x[1], x[2])[1] : x \in Used})
States == 0 .. MaxOf({x[1] : x \in Used} \cup
                     {Instr(p, x[1], x[2])[3] : x \in Used})

HaltStates == {q \in States : \E h \in Colors : Instr(p, q, h) = <<>>}

Blank(m) == [k \in 1 .. m |-> 0]

Inside(c) == 1 <= c[3] /\ c[3] <= n

At(c) == Instr(p, c[1], c[2][c[3]])

Steps(c) ==
  LET x == At(c) IN
  <<x[3], [c[2] EXCEPT ![c[3]] = x[1]], IF x[2] = 1 THEN c[3] + 1 ELSE c[3] - 1>>

Outside(c) ==
  LET xs == {Instr(p, c[1], h) : h \in Colors} \ {<<>>}
      in == IF c[3] = 0 THEN 1 ELSE 0 IN
  {<<x[3], c[2], c[3]>> : x \in {x \in xs : x[3] # c[1]}} \cup
  {<<x[3], c[2], IF in = 1 THEN 1 ELSE n>> : x \in {x \in xs : x[2] = in}}

Next1(c) ==
  IF ~Inside(c) THEN Outside(c)
  ELSE IF At(c) = <<>> THEN {}
  ELSE {Steps(c)}

Halting(c) ==
  IF Inside(c) THEN At(c) = <<>> ELSE c[1] \in HaltStates

Places(q) == {c[3] : c \in {c \in seen : c[1] = q /\ Halting(c)}}

-----------------------------------------------------------------------------
(* From blanks, within the window: "halts", "goes on" (for ever, without    *)
(* leaving it but along blanks), or "leaves".                               *)

AllBlank(c) == \A k \in 1 .. n : c[2][k] = 0

Runs(c) ==
  LET x == At(c) IN
  /\ x[3] = c[1]
  /\ c[2][c[3]] = 0
  /\ \A k \in 1 .. n :
       (IF x[2] = 1 THEN k > c[3] ELSE k < c[3]) => c[2][k] = 0

RECURSIVE From(_, _)
From(c, past) ==
  IF ~Inside(c) THEN "leaves"
  ELSE IF At(c) = <<>> THEN "halts"
  ELSE IF Runs(c) THEN "goes on"
  ELSE LET d == Steps(c) IN
       IF d[1] = 0 /\ AllBlank(d) THEN "goes on"
       ELSE IF d \in past THEN "goes on"
       ELSE From(d, past \cup {d})

Starts == {<<0, Blank(n), k>> : k \in 0 .. n + 1}
Ways == {From(c, {c}) : c \in Starts}

-----------------------------------------------------------------------------
Init ==
  /\ i \in 1 .. Len(Recs)
  /\ n = 2
  /\ seen = {}
  /\ new = {}
  /\ may = {}
  /\ phase = "window"

Window ==
  /\ phase = "window"
  /\ n <= rec.N
  /\ LET w == Ways IN
     /\ may' = may \cup (IF "halts" \in w THEN {-1} ELSE {})
                   \cup (IF "goes on" \in w THEN {n} ELSE {})
     /\ phase' = IF w = {"leaves"} THEN "only" ELSE "also"
  /\ seen' = Starts
  /\ new' = Starts
  /\ UNCHANGED <<i, n>>

RECURSIVE Close(_, _, _)
Close(s, f, k) ==
  IF k = 0 \/ f = {} THEN <<s, f>>
  ELSE LET g == (UNION {Next1(c) : c \in f}) \ s IN Close(s \cup g, g, k - 1)

Grow ==
  /\ phase \in {"only", "also"}
  /\ new # {}
  /\ LET s == Close(seen, new, 8) IN seen' = s[1] /\ new' = s[2]
  /\ UNCHANGED <<i, n, may, phase>>

Look ==
  /\ phase \in {"only", "also"}
  /\ new = {}
  /\ IF \E q \in HaltStates : Places(q) = 0 .. n + 1
     THEN n' = n + 1 /\ phase' = "window" /\ UNCHANGED may
     ELSE /\ may' = IF phase = "only" THEN may \cup {n} ELSE may
          /\ phase' = "end"
          /\ UNCHANGED n
  /\ UNCHANGED <<i, seen, new>>

(* The answers there can be when windows of up to m cells are tried.       *)
Can(m) ==
  {IF a > m THEN -1 ELSE a : a \in may} \cup (IF m < n THEN {-1} ELSE {})

Decide ==
  /\ IF phase = "window" THEN n > rec.N ELSE phase = "end"
  /\ PrintT(<<"V", i, [k \in 1 .. Len(rec.said) |->
                 IF rec.said[k][2] \in Can(rec.said[k][1]) THEN "ok"
                 ELSE IF rec.said[k][2] = -1
                 THEN "a window shows that it never halts, and that is missed"
                 ELSE IF Can(rec.said[k][1]) = {-1}
                 THEN "said never to halt, but no window shows it"
                 ELSE "another window"],
              n, IF may = {} THEN 0
                 ELSE CHOOSE a \in may : \A b \in may : a <= b,
              Cardinality(may), Cardinality(seen)>>)
  /\ phase' = "done"
  /\ UNCHANGED <<i, n, seen, new, may>>

Next == Window \/ Grow \/ Look \/ Decide

Spec == Init /\ [][Next]_vars
===============================================================================
