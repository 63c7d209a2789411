---------------------------- MODULE CollTrace -----------------------------
(***************************************************************************)
(* Sequences of operations on one collection: [map, s, ops, got].  got has *)
(* the observed result r and the contents s after every operation (s may   *)
(* be left out), end the contents at the end, back the contents after      *)
(* saving and reopening (or absent).  Output: the complaints.              *)
(***************************************************************************)
EXTENDS AvbColl, Json, IOUtils
Input == JsonDeserialize(IOEnv.IN)
Pairs(v) == [j \in 1..(Len(v) \div 2) |-> KV(v[2 * j - 1], v[2 * j])]
Conv(c, v) == IF c.map THEN Pairs(v) ELSE v
RECURSIVE Run(_, _, _)
Run(c, s, j) ==
  IF j > Len(c.ops) THEN
     IF Conv(c, c.end) # s THEN << [at |-> j, what |-> "contents", want |-> s] >>
     ELSE IF "back" \in DOMAIN c /\ Conv(c, c.back) # s THEN << [at |-> j, what |-> "contents after saving", want |-> s] >>
     ELSE <<>>
  ELSE LET e == IF c.map /\ "xs" \in DOMAIN c.ops[j] THEN [c.ops[j] EXCEPT !.xs = Pairs(@)] ELSE c.ops[j]
           o == TLCEval(IF c.map THEN MapDo(s, e) ELSE ListDo(s, e))
           g == c.got[j] IN
       IF g.r.t # o.r.t \/ g.r.v # o.r.v THEN << [at |-> j, what |-> "result", want |-> o] >>
       ELSE IF "s" \in DOMAIN g /\ Conv(c, g.s) # o.s THEN << [at |-> j, what |-> "contents", want |-> o] >>
       ELSE Run(c, o.s, j + 1)
ASSUME JsonSerialize(IOEnv.OUT, [k \in 1..Len(Input) |-> Run(Input[k], Conv(Input[k], Input[k].s), 1)])
VARIABLE pos
Init == pos = 0
Next == pos < Len(Input) /\ pos' = pos + 1
=============================================================================
