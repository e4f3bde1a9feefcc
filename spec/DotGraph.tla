-------------------------------- MODULE DotGraph --------------------------------
(* The drawn graph of a program: one arrow per instruction, in the color    *)
(* that belongs to the color it reads, and the program as a title when it   *)
(* is short.  A record: p, edges <<from, to, color>> and titles.            *)
EXTENDS TM, Json, IOUtils

Recs == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES i, done
vars == <<i, done>>

Colors == <<"blue", "red", "forestgreen", "purple", "goldenrod", "black",
            "brown", "deeppink">>

Verdict(r) ==
  LET want == {<<q, h>> \in (0 .. Len(r.p) - 1) \X (0 .. Len(r.p[1]) - 1) :
                 Instr(r.p, q, h) # <<>>}
      edges == {<<q, Instr(r.p, q, h)[3], Colors[h + 1]>> : <<q, h>> \in want}
  IN IF {r.edges[k] : k \in 1 .. Len(r.edges)} # edges
     THEN "the arrows drawn are not those of the program"
     ELSE IF Len(r.edges) # Cardinality(want) THEN "an arrow is drawn twice"
     ELSE IF r.titles # (IF r.len < 50 THEN <<r.text>> ELSE <<>>)
     THEN "the title is wrong"
     ELSE "ok"

Init == i \in 1 .. Len(Recs) /\ done = FALSE
Next == /\ ~done /\ done' = TRUE
        /\ PrintT(<<"V", i, Verdict(Recs[i])>>)
        /\ UNCHANGED i
===============================================================================
