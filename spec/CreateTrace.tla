--------------------------- MODULE CreateTrace ----------------------------
(***************************************************************************)
(* Histories of creating and editing objects: [ops, obs].  Registers hold  *)
(* objects; after every operation the whole of every register was recorded *)
(* with the numbers of all the objects.                                    *)
(***************************************************************************)
EXTENDS AvbCreate, Json, IOUtils
Input == JsonDeserialize(IOEnv.IN)
Empty == << "none" >>
\* registers changed by an operation, in the order of creation: [r, tree]
Made(e) == IF e.op = "create" THEN << [r |-> e.r, t |-> New(e.class, e.doc, e.args)] >> ELSE <<>>
Fails(e) == e.op = "bad"
Distinct(s) == Cardinality({ << s[j][1], s[j][2] >> : j \in 1..Len(s) }) = Len(s)
RECURSIVE Run(_, _, _)
Run(c, m, j) ==
  IF j > Len(c.ops) THEN <<>>
  ELSE LET e == c.ops[j]
           o == c.obs[j]
           new == Made(e)
           \* nested creations and an edit of what was there
           more == IF "inner" \in DOMAIN e THEN Made(e.inner) ELSE <<>>
           all == new \o more
           w == TLCEval([r \in 1..Len(m) |->
                 IF \E k \in 1..Len(all) : all[k].r = r THEN all[CHOOSE k \in 1..Len(all) : all[k].r = r].t
                 ELSE IF e.op = "edit" /\ e.r = r THEN Edit(m[r], e.path, e) ELSE m[r]])
           bad == { r \in 1..Len(m) : ~Match(w[r], o.regs[r]) }
       IN IF bad # {} THEN << [at |-> j, what |-> "objects", r |-> CHOOSE r \in bad : TRUE, want |-> w[CHOOSE r \in bad : TRUE]] >>
          ELSE IF ~Distinct(o.numbers) THEN << [at |-> j, what |-> "numbers"] >>
          ELSE IF o.refused # (e.op = "bad") THEN << [at |-> j, what |-> "refusal"] >>
          ELSE Run(c, TLCEval([r \in 1..Len(m) |-> IF \E k \in 1..Len(all) : all[k].r = r THEN o.regs[r] ELSE w[r]]), j + 1)
\* registers beyond 4 are the contents of the documents, which start as new bins
ASSUME JsonSerialize(IOEnv.OUT, [k \in 1..Len(Input) |->
         LET s == Input[k].start IN
         IF ~\A d \in 1..2 : Match(New("Bin", d, [x \in {} |-> 0]), s[4 + d]) THEN << [at |-> 1, what |-> "new documents"] >>
         ELSE Run(Input[k], s, 1)])
VARIABLE pos
Init == pos = 0
Next == pos < Len(Input) /\ pos' = pos + 1
=============================================================================
