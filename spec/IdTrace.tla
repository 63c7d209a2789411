----------------------------- MODULE IdTrace ------------------------------
(***************************************************************************)
(* Histories of mob ids of the real code: [ops, obs].  Numbered registers  *)
(* hold ids; each operation changes one; after each the views of all of    *)
(* them, and every comparison between them, have been recorded.            *)
(***************************************************************************)
EXTENDS AvbMobId, Json, IOUtils
Input == JsonDeserialize(IOEnv.IN)
Views == { "SMPTELabel", "length", "instanceHigh", "instanceMid", "instanceLow", "Data1", "Data2", "Data3", "Data4", "int", "bytes_le" }
\* the ids after an operation; "unique" gives whatever was generated
After(m, e, o) ==
  CASE e.op = "set" -> [m EXCEPT ![e.r] = Set(@, e.n, e.v)]
    [] e.op = "material" -> [m EXCEPT ![e.r] = SetMaterial(@, e.v)]
    [] e.op \in {"urn", "newurn"} -> [m EXCEPT ![e.r] = FromUrn(e.v)]
    [] e.op \in {"newbytes", "newint"} -> [m EXCEPT ![e.r] = e.v]
    [] e.op = "dict" -> [m EXCEPT ![e.r] = e.v]
    [] e.op = "copy" -> [m EXCEPT ![e.r] = m[e.from]]
    [] e.op = "blank" -> [m EXCEPT ![e.r] = Zeros(32)]
    [] e.op = "unique" -> [m EXCEPT ![e.r] = o.ids[e.r].bytes_le]
    [] OTHER -> m
\* by way of the text
ByText(m, e) == e.op = "copy" /\ e.how \in {"urn", "str"} /\ Ambiguous(m[e.from])
Order(m, i, j) == IF m[i] = m[j] THEN 0 ELSE IF Less(m[i], m[j]) THEN -1 ELSE 1
\* equal ids are equal, have one hash and are one key; <, <=, >, >= follow the number
CompareBad(m, o) == \E i, j \in 1..Len(m) :
  LET w == Order(m, i, j)
      g == o.cmp[i][j]
  IN \/ g.eq # (w = 0) \/ g.ne # (w # 0) \/ g.lt # (w = -1) \/ g.le # (w # 1) \/ g.gt # (w = 1) \/ g.ge # (w # -1)
     \/ (w = 0 /\ ~g.hash) \/ g.key # (w = 0)
ViewBad(m, o) == { r \in 1..Len(m) : \/ \E n \in Views : o.ids[r][n] # Get(m[r], n)
                                     \/ o.ids[r].material # Material(m[r]) \/ o.ids[r].urn # Urn(m[r])
                                     \/ o.ids[r].dict # m[r] }
RECURSIVE Run(_, _, _, _)
Run(c, m, j, made) ==
  IF j > Len(c.ops) THEN <<>>
  ELSE LET e == c.ops[j]
           o == c.obs[j]
           w == TLCEval(After(m, e, o))
           old == ByText(m, e)
           bad == ViewBad(w, o)
       IN IF old /\ bad # {} /\ ViewBad(TLCEval([w EXCEPT ![e.r] = FromUrn(TLCEval(Urn(@)))]), o) = {} THEN << [at |-> j, what |-> "text of an ambiguous id"] >>
          ELSE IF e.op = "unique" /\ (~Generated(w[e.r]) \/ \E k \in 1..Len(made) : made[k] = w[e.r]) THEN << [at |-> j, what |-> "generated id"] >>
          ELSE IF bad # {} THEN << [at |-> j, what |-> "views", r |-> CHOOSE r \in bad : TRUE, want |-> w] >>
          ELSE IF CompareBad(w, o) THEN << [at |-> j, what |-> "comparison", r |-> 0, want |-> w] >>
          ELSE Run(c, w, j + 1, IF e.op = "unique" THEN Append(made, w[e.r]) ELSE made)
ASSUME JsonSerialize(IOEnv.OUT, [k \in 1..Len(Input) |-> Run(Input[k], [r \in 1..3 |-> Zeros(32)], 1, <<>>)])
VARIABLE pos
Init == pos = 0
Next == pos < Len(Input) /\ pos' = pos + 1
=============================================================================
