----------------------------- MODULE WireMarks -----------------------------
(***************************************************************************)
(* Positions of the structural bytes (section heads, tags, type markers,   *)
(* fixed numbers, terminator) in the encoding of each case [bo, cid, rec]: *)
(* the configuration adds 1000 to them (MarkBias).                         *)
(***************************************************************************)
EXTENDS AvbWire, Json, IOUtils
Input == JsonDeserialize(IOEnv.IN)
Result(e) == LET b == Encode(e.bo, e.cid, e.rec) IN
  SelectSeq([j \in 1..Len(b) |-> IF b[j] >= 1000 THEN j ELSE 0], LAMBDA j : j > 0)
ASSUME JsonSerialize(IOEnv.OUT, [k \in 1..Len(Input) |-> Result(Input[k])])
VARIABLE pos
Init == pos = 0
Next == pos < Len(Input) /\ pos' = pos + 1
=============================================================================
