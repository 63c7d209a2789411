---------------------------- MODULE TimeTrace -----------------------------
(***************************************************************************)
(* Observations of sequences of the real code: [s, total, pos, look] with  *)
(* s the components as [tr, len], pos the reported starts, look a list of  *)
(* [t2, j, p]: the time asked for (doubled: halves are asked for too), the *)
(* component found (from 1; 0 none) and its start (doubled).  Output: the  *)
(* complaints.                                                             *)
(***************************************************************************)
EXTENDS AvbTimeline, Json, IOUtils
Input == JsonDeserialize(IOEnv.IN)
\* the component at a doubled time: times are half-open intervals, so that of the time rounded down
LookBad(s, q) ==
  LET t == q.t2 \div 2
      w == AtTime(s, t)
  IN q.j # w \/ q.p # 2 * StartAt(s, w)
Judge(c) ==
  LET s == c.s IN
  (IF c.total # Total(s) THEN << [what |-> "length", want |-> Total(s)] >> ELSE <<>>)
  \o (IF c.pos # Positions(s) THEN << [what |-> "positions", want |-> Positions(s)] >> ELSE <<>>)
  \o (IF c.order # [j \in 1..Len(s) |-> j] THEN << [what |-> "components walked", want |-> Len(s)] >> ELSE <<>>)
  \o (IF ~Lookable(s) \/ Solid(s) = {} THEN <<>>
      ELSE LET bad == { i \in 1..Len(c.look) : LookBad(s, c.look[i]) } IN
           IF bad = {} THEN <<>> ELSE
           LET q == c.look[MinOf(bad)]
               w == AtTime(s, q.t2 \div 2) IN << [what |-> "lookup", q |-> q, want |-> w, start |-> StartAt(s, w)] >>)
ASSUME JsonSerialize(IOEnv.OUT, [k \in 1..Len(Input) |-> Judge(Input[k])])
VARIABLE n
Init == n = 0
Next == n < Len(Input) /\ n' = n + 1
=============================================================================
