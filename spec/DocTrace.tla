----------------------------- MODULE DocTrace -----------------------------
(***************************************************************************)
(* Traces recorded from the real code, replayed through the transitions of *)
(* AvbDoc.  Input: a list of traces (lists of events).  Output: for each   *)
(* trace the complaints, with the number of the event.                     *)
(***************************************************************************)
EXTENDS AvbDoc, Json, IOUtils
Input == JsonDeserialize(IOEnv.IN)
RECURSIVE Run(_, _, _, _)
Run(tr, st, j, bad) ==
  IF j > Len(tr) THEN bad
  ELSE LET n == TLCEval(Apply(st, tr[j])) IN
       \* after a complaint the model and the code are out of step: stop there
       IF n.bad # <<>> THEN [k \in 1..Len(n.bad) |-> << j, n.bad[k] >>]
       ELSE Run(tr, n.st, j + 1, bad)
ASSUME JsonSerialize(IOEnv.OUT, [k \in 1..Len(Input) |-> Run(Input[k], Empty, 1, <<>>)])
VARIABLE pos
Init == pos = 0
Next == pos < Len(Input) /\ pos' = pos + 1
=============================================================================
