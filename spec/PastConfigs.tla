------------------------------ MODULE PastConfigs ------------------------------
(***************************************************************************)
(* When the prover tries to prove a rule.  It notes the cycles at which a   *)
(* signature is seen in a state.  When the last five sightings are in a     *)
(* regular pattern,                                                         *)
(*     next = k * this + p,   p growing by the same amount every time,      *)
(* for some k in 1..4 (the smallest counts), it goes on to where the next   *)
(* three would be: the answer is how far it is to each from the one before. *)
(* There is no answer when the three are not in order.                      *)
(*                                                                          *)
(* A record: q0, n0 (the state and cycle of the first sighting) and ops, a  *)
(* sequence of ["see", q, n, answer], answer <<>> or three numbers, and     *)
(* ["drop", q]: the sightings in state q are forgotten.                     *)
(*                                                                          *)
(* The first sighting of a state that is not q0, or comes after a drop, may *)
(* be noted once or twice; both are carried along.                          *)
(***************************************************************************)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC, Json, IOUtils

Recs == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES i, l, seen, verdict

vars == <<i, l, seen, verdict>>

rec == Recs[i]

Op == rec.ops[l]

(* seen: state -> a set of sequences of cycles, those that are possible.   *)
States == {rec.q0} \cup {rec.ops[x][2] : x \in 1 .. Len(rec.ops)}

Init ==
  /\ i \in 1 .. Len(Recs)
  /\ l = 1
  /\ seen = [q \in {Recs[i].q0} \cup
                   {Recs[i].ops[x][2] : x \in 1 .. Len(Recs[i].ops)} |->
               IF q = Recs[i].q0 THEN {<<Recs[i].n0>>} ELSE {<<>>}]
  /\ verdict = "run"

Last(s, k) == IF Len(s) <= k THEN s ELSE SubSeq(s, Len(s) - k + 1, Len(s))

(* s with one more sighting, in every way.                                 *)
More(s, n) ==
  IF s = <<>> THEN {<<n>>, <<n, n>>} ELSE {Last(Append(s, n), 5)}

(* s: five sightings, oldest first.                                        *)
P(s, k, x) == s[x + 1] - k * s[x]

Regular(s, k) ==
  LET d == P(s, k, 4) - P(s, k, 3) IN
  /\ P(s, k, 3) - P(s, k, 2) = d
  /\ P(s, k, 2) - P(s, k, 1) = d

Ahead(s, k) ==
  LET d == P(s, k, 4) - P(s, k, 3)
      p == P(s, k, 4)
      n1 == k * s[5] + p + d
      n2 == k * n1 + p + 2 * d
      n3 == k * n2 + p + 3 * d IN
  IF s[5] <= n1 /\ n1 <= n2 /\ n2 <= n3
  THEN <<n1 - s[5], n2 - n1, n3 - n2>> ELSE <<>>

Answer(s) ==
  IF Len(s) < 5 THEN <<>>
  ELSE LET ks == {k \in 1 .. 4 : Regular(s, k)} IN
    IF ks = {} THEN <<>>
    ELSE Ahead(s, CHOOSE k \in ks : \A j \in ks : k <= j)

Possible ==
  {s \in UNION {More(z, Op[3]) : z \in seen[Op[2]]} : Answer(s) = Op[4]}

Clause ==
  IF Op[1] = "drop" \/ Possible # {} THEN "ok"
  ELSE IF Op[4] = <<>> THEN "a pattern is not noticed"
  ELSE IF \A s \in UNION {More(z, Op[3]) : z \in seen[Op[2]]} :
            Answer(s) = <<>>
  THEN "a pattern is seen that is not there"
  ELSE "the pattern is continued wrongly"

Take ==
  /\ verdict = "run"
  /\ l <= Len(rec.ops)
  /\ Clause = "ok"
  /\ l' = l + 1
  /\ seen' = [seen EXCEPT ![Op[2]] =
                IF Op[1] = "drop" THEN {<<>>} ELSE Possible]
  /\ UNCHANGED <<i, verdict>>

Decide ==
  /\ verdict = "run"
  /\ LET v == IF l > Len(rec.ops) THEN "ok"
              ELSE IF Clause = "ok" THEN "run" ELSE Clause IN
       /\ v # "run"
       /\ verdict' = v
       /\ PrintT(<<"V", i, v, l>>)
  /\ UNCHANGED <<i, l, seen>>

Next == Take \/ Decide

Spec == Init /\ [][Next]_vars
===============================================================================
