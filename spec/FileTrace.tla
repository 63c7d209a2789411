----------------------------- MODULE FileTrace -----------------------------
(***************************************************************************)
(* Opening of (damaged) files: for each case [bytes] the verdict of        *)
(* AvbFile on the file as a whole and on each of its objects.              *)
(***************************************************************************)
EXTENDS AvbFile, Json, IOUtils
Input == JsonDeserialize(IOEnv.IN)
Result(e) ==
  LET f == ParseFile(e.bytes) IN
  IF ~f.ok THEN [ok |-> FALSE, why |-> f.why, objs |-> <<>>, root |-> 0]
  ELSE LET objs == [j \in 1..f.n |-> LET x == ReadChunk(f, e.bytes, j) IN [ok |-> x.ok, why |-> x.why, cid |-> x.cid]]
       IN [ok |-> objs[f.root].ok, why |-> "root: " \o objs[f.root].why, objs |-> objs, root |-> f.root]
\* in the assumption itself, so that constants are evaluated (once) before it
ASSUME JsonSerialize(IOEnv.OUT, [k \in 1..Len(Input) |-> Result(Input[k])])
VARIABLE pos
Init == pos = 0
Next == pos < Len(Input) /\ pos' = pos + 1
=============================================================================
