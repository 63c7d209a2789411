---------------------------- MODULE DiskTrace -----------------------------
(***************************************************************************)
(* Saves of the real code that were stopped: [runs, facts].                *)
(*  run: the disk before [names, data], the changes made (ops), where the  *)
(*  document was to go (target), the file an undisturbed save writes       *)
(*  (whole), how it ended, what was left and whether the real reader opens *)
(*  it; cuts: a change cut short and whether the reader opens that.        *)
(*  fact: something looked at afterwards and what it has to be.            *)
(***************************************************************************)
EXTENDS AvbDisk, Json, IOUtils
Input == JsonDeserialize(IOEnv.IN)
Pairs(s) == [k \in { s[i][1] : i \in 1..Len(s) } |-> (CHOOSE i \in 1..Len(s) : s[i][1] = k)]
Fun(s) == LET p == Pairs(s) IN [k \in DOMAIN p |-> s[p[k]][2]]
Bad(w, j) == << [what |-> w, at |-> j] >>
CutBad(r, ds, c, before) ==
  LET img == TLCEval(Image(Change(ds[c.op], Torn(r.ops[c.op], c.n)), r.target)) IN
  ~Harmless(img, before, r.whole) \/ (c.opened /\ img # before /\ img # r.whole)
\* the changes say where the bytes went; when they explain what is there, every moment between is judged
RunBad(r) ==
  LET d0 == [names |-> Fun(r.names), data |-> Fun(r.data)]
      before == Image(d0, r.target)
      ds == TLCEval(Disks(d0, r.ops, 1))
      logged == Image(ds[Len(ds)], r.target) = r.after
      mid == { j \in 1..Len(ds) : ~Harmless(Image(ds[j], r.target), before, r.whole) }
      cut == { k \in 1..Len(r.cuts) : CutBad(r, ds, r.cuts[k], before) }
  IN IF ~Harmless(r.after, before, r.whole) THEN Bad("left: what a stopped save left is a document", 0)
     ELSE IF r.opened /\ r.after # before /\ r.after # r.whole THEN Bad("left: what a stopped save left opens", 0)
     ELSE IF r.end = "returned" /\ r.after # r.whole THEN Bad("success: a save that did not raise did not write the document", 0)
     ELSE IF ~logged THEN Bad("log", 0)
     ELSE IF mid # {} THEN Bad("left: the file is a document before the save is finished", CHOOSE j \in mid : TRUE)
     ELSE IF cut # {} THEN Bad("left: the file opens when a write is cut short", CHOOSE k \in cut : TRUE)
     ELSE <<>>
Judge(c) ==
  LET rb == TLCEval([k \in 1..Len(c.runs) |-> RunBad(c.runs[k])])
      bad == { k \in 1..Len(rb) : rb[k] # <<>> }
      fb == { k \in 1..Len(c.facts) : c.facts[k].got # c.facts[k].want }
  IN [runs |-> [k \in 1..Len(rb) |-> rb[k]],
      facts |-> IF fb = {} THEN <<>> ELSE << c.facts[CHOOSE k \in fb : TRUE] >>,
      images |-> Len(c.runs)]
ASSUME JsonSerialize(IOEnv.OUT, [k \in 1..Len(Input) |-> Judge(Input[k])])
VARIABLE pos
Init == pos = 0
Next == pos < Len(Input) /\ pos' = pos + 1
=============================================================================
