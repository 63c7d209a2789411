----------------------------- MODULE MobTrace -----------------------------
(***************************************************************************)
(* Mob graphs: [n, edges (pairs), missing, got].  got[x] is what the real  *)
(* code lists as the mobs x depends on.  Output: complaints per graph.     *)
(***************************************************************************)
EXTENDS AvbBin, Json, IOUtils
Input == JsonDeserialize(IOEnv.IN)
Table(c) == TLCEval([x \in 1..c.n |-> { c.edges[k][2] : k \in { k \in 1..Len(c.edges) : c.edges[k][1] = x /\ c.edges[k][2] <= c.n } }])
ASSUME JsonSerialize(IOEnv.OUT, [k \in 1..Len(Input) |->
   LET c == Input[k]  nt == Table(c) IN Flat([x \in 1..c.n |-> LET w == DepsWrong(nt, x, c.got[x]) IN IF w = <<>> THEN <<>> ELSE << << x, w[1] >> >>])])
VARIABLE pos
Init == pos = 0
Next == pos < Len(Input) /\ pos' = pos + 1
=============================================================================
