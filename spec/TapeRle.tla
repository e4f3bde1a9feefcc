-------------------------------- MODULE TapeRle --------------------------------
(***************************************************************************)
(* The run-length compressed tape, as cells.  A tape is <<left, scan,       *)
(* right>>, the sides nearest first without trailing blanks.                *)
(*                                                                          *)
(* Move(t, shift, color, skip) is what one operation means: write color and *)
(* move by one cell, or, with skip, go on writing and moving over all the   *)
(* cells right ahead that look like the scanned one did.                    *)
(*                                                                          *)
(* BlockMove is the same done on blocks, the way the code goes about it     *)
(* (pull a block off one side, push one on the other).  With Design.cfg     *)
(* TLC checks for every tape up to a size that the two agree and that       *)
(* BlockMove keeps the normal form.  With Plain.cfg it judges what the real *)
(* tapes did.                                                               *)
(*                                                                          *)
(* A record: t0 = [l, h, r] in blocks <<color, count>>; seq, whether each   *)
(* operation starts where the last one ended (else at t0); ops, a sequence  *)
(* of [shift, color, skip, stepped, l, h, r, marks, blank, edges, lsig,     *)
(* rsig, text, apart].                                                      *)
(***************************************************************************)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC, Json, IOUtils

RECURSIVE Expand(_)
Expand(bs) ==
  IF bs = <<>> THEN <<>>
  ELSE [x \in 1 .. Head(bs)[2] |-> Head(bs)[1]] \o Expand(Tail(bs))

RECURSIVE Trim(_)
Trim(s) ==
  IF s = <<>> THEN <<>>
  ELSE IF s[Len(s)] = 0 THEN Trim(SubSeq(s, 1, Len(s) - 1)) ELSE s

RECURSIVE Compress(_)
Compress(s) ==
  IF s = <<>> THEN <<>>
  ELSE LET rest == Compress(Tail(s)) IN
       IF rest # <<>> /\ rest[1][1] = Head(s)
       THEN <<<<Head(s), rest[1][2] + 1>>>> \o Tail(rest)
       ELSE <<<<Head(s), 1>>>> \o rest

Canonical(bs) ==
  /\ \A x \in 1 .. Len(bs) : bs[x][2] >= 1
  /\ \A x \in 1 .. Len(bs) - 1 : bs[x][1] # bs[x + 1][1]
  /\ bs # <<>> => bs[Len(bs)][1] # 0

Push(cell, side) == IF cell = 0 /\ side = <<>> THEN <<>> ELSE <<cell>> \o side

One(t, shift, color) ==
  IF shift = 1
  THEN << Push(color, t[1]), IF t[3] = <<>> THEN 0 ELSE Head(t[3]),
          IF t[3] = <<>> THEN <<>> ELSE Tail(t[3]) >>
  ELSE << IF t[1] = <<>> THEN <<>> ELSE Tail(t[1]),
          IF t[1] = <<>> THEN 0 ELSE Head(t[1]), Push(color, t[3]) >>

Ahead(t, shift) == IF shift = 1 THEN t[3] ELSE t[1]

(* Cells right ahead that look like the scanned one.                       *)
RECURSIVE Run(_, _)
Run(s, h) == IF s # <<>> /\ Head(s) = h THEN 1 + Run(Tail(s), h) ELSE 0

Steps(t, shift, skip) == 1 + (IF skip = 1 THEN Run(Ahead(t, shift), t[2]) ELSE 0)

RECURSIVE Times(_, _, _, _)
Times(t, shift, color, k) ==
  IF k = 0 THEN t ELSE Times(One(t, shift, color), shift, color, k - 1)

Move(t, shift, color, skip) == Times(t, shift, color, Steps(t, shift, skip))

(***************************** on blocks ***********************************)

(* <<stepped, left, scan, right>> of a tape of blocks.                     *)
BlockMove(b, shift, color, skip) ==
  LET pull0 == IF shift = 1 THEN b[3] ELSE b[1]
      push0 == IF shift = 1 THEN b[1] ELSE b[3]
      jump  == skip = 1 /\ pull0 # <<>> /\ pull0[1][1] = b[2]
      n     == IF jump THEN 1 + pull0[1][2] ELSE 1
      pull1 == IF jump THEN Tail(pull0) ELSE pull0
      scan  == IF pull1 = <<>> THEN 0 ELSE pull1[1][1]
      pull2 == IF pull1 = <<>> THEN <<>>
               ELSE IF pull1[1][2] = 1 THEN Tail(pull1)
               ELSE <<<<scan, pull1[1][2] - 1>>>> \o Tail(pull1)
      push1 == IF push0 # <<>> /\ push0[1][1] = color
               THEN <<<<color, push0[1][2] + n>>>> \o Tail(push0)
               ELSE IF push0 = <<>> /\ color = 0 THEN <<>>
               ELSE <<<<color, n>>>> \o push0
  IN IF shift = 1 THEN <<n, push1, scan, pull2>> ELSE <<n, pull2, scan, push1>>

(***************************** design check ********************************)

CONSTANTS COLORS, CELLS

Sides == UNION {{s \in [1 .. n -> 0 .. COLORS - 1] :
                    n > 0 => s[n] # 0} : n \in 0 .. CELLS}

VARIABLES i, l, t, verdict

vars == <<i, l, t, verdict>>

DesignInit ==
  /\ i = 0
  /\ l = 0
  /\ verdict = "design"
  /\ t \in {<<a, h, b>> : a \in Sides, h \in 0 .. COLORS - 1, b \in Sides}

DesignNext == UNCHANGED vars

Agree ==
  \A shift \in {0, 1}, color \in 0 .. COLORS - 1, skip \in {0, 1} :
    LET b == BlockMove(<<Compress(t[1]), t[2], Compress(t[3])>>,
                       shift, color, skip) IN
      /\ b[1] = Steps(t, shift, skip)
      /\ <<Expand(b[2]), b[3], Expand(b[4])>> = Move(t, shift, color, skip)
      /\ Canonical(b[2])
      /\ Canonical(b[4])

(***************************** judging *************************************)

Recs == ndJsonDeserialize(IOEnv.TRACE)

rec == Recs[i]

Start == <<Expand(rec.t0[1]), rec.t0[2], Expand(rec.t0[3])>>

Init ==
  /\ i \in 1 .. Len(Recs)
  /\ l = 1
  /\ t = Start
  /\ verdict = "run"

RECURSIVE CountNZ(_)
CountNZ(s) == IF s = <<>> THEN 0
              ELSE (IF Head(s) = 0 THEN 0 ELSE 1) + CountNZ(Tail(s))

Marks(x) == CountNZ(x[1]) + CountNZ(x[3]) + (IF x[2] = 0 THEN 0 ELSE 1)

Bool(x) == IF x THEN 1 ELSE 0

Sig(bs) == [x \in 1 .. Len(bs) |-> <<bs[x][1], Bool(bs[x][2] = 1)>>]

Reverse(s) == [x \in 1 .. Len(s) |-> s[Len(s) + 1 - x]]

Spell(b) ==
  IF b[2] = 1 THEN ToString(b[1]) ELSE ToString(b[1]) \o "^" \o ToString(b[2])

RECURSIVE Join(_)
Join(s) == IF Len(s) = 1 THEN s[1] ELSE s[1] \o " " \o Join(Tail(s))

Text(l0, h, r0) ==
  Join([x \in 1 .. Len(l0) |-> Spell(Reverse(l0)[x])]
       \o << "[" \o ToString(h) \o "]" >>
       \o [x \in 1 .. Len(r0) |-> Spell(r0[x])])

Op == rec.ops[l]

From == IF rec.seq THEN t ELSE Start

Clause ==
  LET o == Op
      after == Move(From, o.shift, o.color, o.skip) IN
  IF ~Canonical(o.l) \/ ~Canonical(o.r) THEN "not in normal form"
  ELSE IF <<Expand(o.l), o.h, Expand(o.r)>> # after THEN "wrong cells"
  ELSE IF o.stepped # Steps(From, o.shift, o.skip) THEN "wrong step count"
  ELSE IF o.marks # Marks(after) THEN "wrong marks"
  ELSE IF (o.blank = 1) # (Marks(after) = 0) THEN "wrong blankness"
  ELSE IF o.edges # <<Bool(after[2] = 0 /\ after[1] = <<>>),
                      Bool(after[2] = 0 /\ after[3] = <<>>)>>
  THEN "wrong edge"
  ELSE IF o.lsig # Sig(Compress(after[1])) \/ o.rsig # Sig(Compress(after[3]))
  THEN "wrong signature"
  ELSE IF o.text # "" /\ o.text # Text(o.l, o.h, o.r) THEN "wrong display"
  ELSE IF ~o.apart THEN "a copy of the tape changed with it"
  ELSE "ok"

Take ==
  /\ verdict = "run"
  /\ l <= Len(rec.ops)
  /\ Clause = "ok"
  /\ l' = l + 1
  /\ t' = IF rec.seq THEN Move(t, Op.shift, Op.color, Op.skip) ELSE t
  /\ UNCHANGED <<i, verdict>>

Decide ==
  /\ verdict = "run"
  /\ LET v == IF l > Len(rec.ops) THEN "ok"
              ELSE IF Clause = "ok" THEN "run" ELSE Clause IN
       /\ v # "run"
       /\ verdict' = v
       /\ PrintT(<<"V", i, v, l>>)
  /\ UNCHANGED <<i, l, t>>

Next == Take \/ Decide

Spec == Init /\ [][Next]_vars
===============================================================================
