----------------------------- MODULE LifeTrace ----------------------------
(***************************************************************************)
(* Plans: of a list of wished actions those that are enabled in turn.      *)
(* Traces: [acts, got, alive]: what the real code showed after every       *)
(* action; alive are the actions whose object is still in memory at the    *)
(* end, when the variables are given up.  Output: the complaints.          *)
(***************************************************************************)
EXTENDS AvbLife, Json, IOUtils
Input == JsonDeserialize(IOEnv.IN)
RECURSIVE Plan(_, _, _)
Plan(wish, st, j) == IF j > Len(wish) THEN <<>>
  ELSE IF ~Enabled(st, wish[j], 60) THEN Plan(wish, st, j + 1)
  ELSE << wish[j] >> \o Plan(wish, TLCEval(Do(st, wish[j], "none")), j + 1)

Want(st) == << VarFace(st, 1), VarFace(st, 2) >>
Bad(st, a, g) ==
  IF "err" \in DOMAIN g THEN "raised"
  ELSE IF g.vars # Want(st) THEN "lost: the values of an object"
  ELSE IF st.vars[1] # 0 /\ st.vars[2] # 0 /\ g.same # (st.vars[1] = st.vars[2]) THEN
       (IF g.same THEN "identity: one object for two" ELSE "identity: two objects for one")
  ELSE IF "nums" \in DOMAIN g /\ g.nums THEN "identity: a number given twice"
  ELSE IF "view" \in DOMAIN g /\ (g.view.nodes # Tree(st).nodes \/ g.view.tops # Tree(st).tops) THEN "lost: what navigation shows"
  ELSE IF "file" \in DOMAIN g /\ (g.file.nodes # Tree(st).nodes \/ g.file.tops # Tree(st).tops) THEN "lost: the saved file"
  ELSE IF "source" \in DOMAIN g /\ g.source THEN "reads: the opened file changed"
  ELSE ""
\* the object an action gave to its variable; where it came from
Gives(a, st) == IF a.op \in { "get", "step", "new" } THEN st.vars[a.i] ELSE IF a.op = "copy" THEN st.vars[Other(a.i)] ELSE 0
RECURSIVE Run(_, _, _, _)
Run(c, st, j, given) ==
  IF j > Len(c.acts) THEN
     \* changed objects and what they lead to may stay in memory, nothing else
     LET may == Below(st.doc, Kept([st EXCEPT !.vars = << 0, 0 >>])) IN
     IF \E k \in 1..Len(c.alive) : given[c.alive[k]] # 0 /\ given[c.alive[k]] \notin may
     THEN << [at |-> j, what |-> "memory: an object that was only looked at is still there"] >> ELSE <<>>
  ELSE LET a == c.acts[j]
           nx == TLCEval(Do(st, a, "none"))
           w == Bad(nx, a, c.got[j])
           g == IF a.op = "reopen" THEN [k \in 1..Len(given) |-> 0] ELSE given
       IN IF w # "" THEN << [at |-> j, what |-> w] >>
          ELSE Run(c, nx, j + 1, Append(g, Gives(a, nx)))
ASSUME JsonSerialize(IOEnv.OUT, [k \in 1..Len(Input) |->
  IF "wish" \in DOMAIN Input[k] THEN Plan(Input[k].wish, Fresh, 1) ELSE Run(Input[k], Fresh, 1, <<>>)])
VARIABLE pos
Init == pos = 0
Next == pos < Len(Input) /\ pos' = pos + 1
=============================================================================
