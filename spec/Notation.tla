-------------------------------- MODULE Notation --------------------------------
(***************************************************************************)
(* The written form of programs.  A table of instructions is written row by *)
(* row, rows two blanks apart and instructions one, an instruction as       *)
(* print, direction and next state, "..." where there is none.  A record    *)
(* holds a table (rows), a text, and what the real code made of the text    *)
(* and of the table.                                                        *)
(***************************************************************************)
EXTENDS TM, Json, IOUtils

Recs == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES i, done

vars == <<i, done>>

Alphabet == "ABCDEFGHIJKLMNOPQRSTUVWXYZ"
Digits == "0123456789"

At(s, k) == SubSeq(s, k, k)
Letter(q) == At(Alphabet, q + 1)
Digit(c) == At(Digits, c + 1)
NumOf(s, ch) == (CHOOSE k \in 1 .. Len(s) : At(s, k) = ch) - 1

ShowInstr(x) ==
  IF x = <<>> THEN "..."
  ELSE Digit(x[1]) \o (IF x[2] = 1 THEN "R" ELSE "L") \o Letter(x[3])

RECURSIVE Join(_, _)
Join(ss, sep) ==
  IF Len(ss) = 1 THEN ss[1] ELSE ss[1] \o sep \o Join(Tail(ss), sep)

ShowRow(row) == Join([k \in 1 .. Len(row) |-> ShowInstr(row[k])], " ")
ShowProg(rows) == Join([k \in 1 .. Len(rows) |-> ShowRow(rows[k])], "  ")

ReadInstr(s) ==
  IF s = "..." THEN <<>>
  ELSE <<NumOf(Digits, At(s, 1)), IF At(s, 2) = "R" THEN 1 ELSE 0,
         NumOf(Alphabet, At(s, 3))>>

(* Every instruction is 3 wide and followed by one blank; rows by two.     *)
ReadProg(s, ns, nc) ==
  [q \in 1 .. ns |-> [h \in 1 .. nc |->
     LET at == (q - 1) * (4 * nc + 1) + (h - 1) * 4 + 1
     IN ReadInstr(SubSeq(s, at, at + 2))]]

(* The table cut or filled up to ns rows of nc. *)
Resize(rows, ns, nc) ==
  [q \in 1 .. ns |-> [h \in 1 .. nc |-> Instr(rows, q - 1, h - 1)]]

SetMax(S) == CHOOSE x \in S : \A y \in S : y <= x
Filled(rows) ==
  {<<q, h>> \in (0 .. Len(rows) - 1) \X (0 .. Len(rows[1]) - 1) :
      Instr(rows, q, h) # <<>>}
(* States and colors that occur; at least two of each.                     *)
OccStates(rows) ==
  1 + SetMax({1} \cup {s[1] : s \in Filled(rows)}
                 \cup {Instr(rows, s[1], s[2])[3] : s \in Filled(rows)})
OccColors(rows) ==
  1 + SetMax({1} \cup {s[2] : s \in Filled(rows)}
                 \cup {Instr(rows, s[1], s[2])[1] : s \in Filled(rows)})

Compact(rows, und) ==
  Join([q \in 1 .. Len(rows) |->
          Join([h \in 1 .. Len(rows[q]) |->
                  IF rows[q][h] = <<>> THEN und ELSE ShowInstr(rows[q][h])],
               "")], "_")

Verdict(r) ==
  LET ns == Len(r.rows)
      nc == Len(r.rows[1])
      txt == ShowProg(r.rows)
      Slot(k) == <<(k - 1) \div nc, (k - 1) % nc>>
      blank == [q \in 1 .. ns |-> [h \in 1 .. nc |->
                  IF q = 1 /\ h = 1 THEN <<1, 1, 1>> ELSE <<>>]]
  IN
  IF r.text # txt \/ ReadProg(txt, ns, nc) # r.rows \/ r.compact # Compact(r.rows, r.und)
     THEN "bad record"
  ELSE IF {r.comp[k] : k \in 1 .. Len(r.comp)}
          # {<<s[1], s[2]>> \o Instr(r.rows, s[1], s[2]) : s \in Filled(r.rows)}
     THEN "the compiled table is not the one written"
  ELSE IF r.shown # txt THEN "a compiled table is not shown as it was written"
  ELSE IF r.default # ShowProg(Resize(r.rows, OccStates(r.rows),
                                      OccColors(r.rows)))
     THEN "a compiled table of no given size is shown wrongly"
  ELSE IF r.parsed # r.rows THEN "the table read is not the one written"
  ELSE IF r.params # <<ns, nc>> THEN "wrong numbers of states and colors"
  ELSE IF r.normshown # txt THEN "the table read is not shown as it was written"
  ELSE IF r.expanded # txt THEN "compact notation is expanded wrongly"
  ELSE IF \E k \in 1 .. ns * nc :
            r.slots[k] # Letter(Slot(k)[1]) \o Digit(Slot(k)[2])
     THEN "a slot is shown wrongly"
  ELSE IF \E k \in 1 .. ns * nc : r.slotsback[k] # Slot(k)
     THEN "a slot shown is not read back"
  ELSE IF \E k \in 1 .. ns * nc :
            r.instrs[k] # ShowInstr(Instr(r.rows, Slot(k)[1], Slot(k)[2]))
     THEN "an instruction is shown wrongly"
  ELSE IF \E k \in 1 .. ns * nc :
            r.instrsback[k] # Instr(r.rows, Slot(k)[1], Slot(k)[2])
     THEN "an instruction shown is not read back"
  ELSE IF \E k \in 1 .. ns : r.states[k] # Letter(k - 1)
     THEN "a state is shown wrongly"
  ELSE IF r.nostate # "." THEN "no state is shown wrongly"
  ELSE IF r.init # ShowProg(blank) THEN "the initial program is wrong"
  ELSE "ok"

Init == i \in 1 .. Len(Recs) /\ done = FALSE

Judge == /\ ~done /\ done' = TRUE
         /\ PrintT(<<"V", i, Verdict(Recs[i])>>)
         /\ UNCHANGED i

Next == Judge
===============================================================================
