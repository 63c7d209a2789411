---------------------------- MODULE CurvePlan -----------------------------
EXTENDS AvbCurve, Json, IOUtils
Input == JsonDeserialize(IOEnv.IN)
ASSUME JsonSerialize(IOEnv.OUT, [k \in 1..Len(Input) |-> Questions(Input[k])])
VARIABLE n
Init == n = 0
Next == n < Len(Input) /\ n' = n + 1
=============================================================================
