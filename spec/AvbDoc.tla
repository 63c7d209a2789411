------------------------------ MODULE AvbDoc ------------------------------
(***************************************************************************)
(* Documents being edited.  The state of the model:                        *)
(*   heap     every object that was ever part of a document (AvbGraph)     *)
(*   roots    the content root of each open document                       *)
(*   hand     the objects a program keeps hold of ("handles")              *)
(*   spoiled  objects that hold a value no file can hold                   *)
(*   disk     the bytes of the last file saved from each document          *)
(*   nx       the next free number of the heap                             *)
(* The transitions are the public operations of the library; what they do  *)
(* to a document does not depend on handles, on what was looked at before  *)
(* or on when memory is reclaimed: there is nothing like that in the state.*)
(* Every transition gives the next state and the list of complaints about  *)
(* what the real code was seen to do (empty when it conforms).             *)
(***************************************************************************)
EXTENDS AvbNames

Empty == [heap |-> << >>, roots |-> << 0, 0, 0 >>, hand |-> << >>, spoiled |-> {}, disk |-> << <<>>, <<>>, <<>> >>, nx |-> 1]
Then(st, bad) == [st |-> st, bad |-> bad]
Say(c, s) == IF c THEN << s >> ELSE <<>>
Has(e, k) == k \in DOMAIN e

\* ---- places: a start (document -d or handle), then steps ----------------
RECURSIVE Go(_, _, _, _, _)
Go(st, obj, val, inside, steps) ==
  IF steps = <<>> THEN [ok |-> TRUE, obj |-> obj, val |-> val, inside |-> inside]
  ELSE LET s == Head(steps) IN
    IF s[1] = "d" THEN LET n == BEInt(val) IN
         IF n \in DOMAIN st.heap THEN Go(st, n, st.heap[n].r, <<>>, Tail(steps)) ELSE [ok |-> FALSE, obj |-> obj]
    ELSE IF s[1] = "p" THEN
         IF s[2] \in DOMAIN val THEN Go(st, obj, val[s[2]], Append(inside, s), Tail(steps)) ELSE [ok |-> FALSE, obj |-> obj]
    ELSE IF s[2] + 1 \in DOMAIN val THEN Go(st, obj, val[s[2] + 1], Append(inside, s), Tail(steps)) ELSE [ok |-> FALSE, obj |-> obj]
StartOf(st, from) == IF from < 0 THEN st.roots[-from] ELSE IF from \in DOMAIN st.hand THEN st.hand[from] ELSE 0
Find(st, at) == LET x == StartOf(st, at.from) IN
  IF x \in DOMAIN st.heap THEN Go(st, x, st.heap[x].r, <<>>, at.steps) ELSE [ok |-> FALSE, obj |-> 0]

RECURSIVE PutAt(_, _, _)
PutAt(r, path, v) == IF path = <<>> THEN v
  ELSE IF Head(path)[1] = "i" THEN [r EXCEPT ![Head(path)[2] + 1] = PutAt(@, Tail(path), v)]
  ELSE [r EXCEPT ![Head(path)[2]] = PutAt(@, Tail(path), v)]
HandRef(st, h) == IF h = 0 THEN << 0, 0, 0, 0 >> ELSE RefB(st.hand[h])
InsertAt(s, k, v) == SubSeq(s, 1, k) \o << v >> \o SubSeq(s, k + 1, Len(s))
RemoveAt(s, k) == SubSeq(s, 1, k) \o SubSeq(s, k + 2, Len(s))
SpliceAt(s, k, b) == SubSeq(s, 1, k) \o b \o SubSeq(s, k + Len(b) + 1, Len(s))
AttrPos(s, k) == { j \in 1..Len(s) : s[j].k = k }

Lost(e) == << "content: what was edited is not where it was: " \o e.op >>
Put1(st, f, v) == [st EXCEPT !.heap[f.obj].r = PutAt(@, f.inside, v)]

\* ---- the edits ----------------------------------------------------------
\* the place in a list or string that is changed exists
Fits(e, v) == CASE e.op \in {"ins", "insref"} -> e.k <= Len(v)
                [] e.op = "del"    -> e.k < Len(v)
                [] e.op = "splice" -> e.k + Len(e.v) <= Len(v)
                [] OTHER           -> TRUE
Edit(st, e) ==
  LET f == Find(st, e.at) IN
  IF ~f.ok \/ ~Fits(e, f.val) THEN Then(st, Lost(e))
  ELSE Then(CASE e.op = "set"    -> Put1(st, f, e.v)
              [] e.op = "setref" -> Put1(st, f, HandRef(st, e.h))
              [] e.op = "prop"   -> [st EXCEPT !.heap[f.obj].r = (e.n :> e.v) @@ @]
              [] e.op = "wholeref" -> Put1(st, f, [j \in 1..Len(e.hs) |-> HandRef(st, e.hs[j])])
              [] e.op = "ins"    -> Put1(st, f, InsertAt(f.val, e.k, e.v))
              [] e.op = "insref" -> Put1(st, f, InsertAt(f.val, e.k, HandRef(st, e.h)))
              [] e.op = "del"    -> Put1(st, f, RemoveAt(f.val, e.k))
              [] e.op = "rev"    -> Put1(st, f, Rev(f.val))
              [] e.op = "clear"  -> Put1(st, f, <<>>)
              [] e.op = "splice" -> Put1(st, f, SpliceAt(f.val, e.k, e.v))
              [] e.op = "aset"   -> LET s == f.val  p == AttrPos(s, e.k)
                                        x == [k |-> e.k, t |-> e.t, v |-> IF e.t = 3 THEN HandRef(st, e.h) ELSE e.v]
                                    IN Put1(st, f, IF p = {} THEN Append(s, x) ELSE [s EXCEPT ![CHOOSE j \in p : TRUE] = x])
              [] e.op = "adel"   -> LET s == f.val  p == AttrPos(s, e.k)
                                    IN Put1(st, f, IF p = {} THEN s ELSE RemoveAt(s, (CHOOSE j \in p : TRUE) - 1)),
            <<>>)

\* ---- objects coming in: nodes are numbered from 1 -----------------------
NodeHeap(nodes) == [j \in 1..Len(nodes) |-> [cid |-> nodes[j].cid, r |-> nodes[j].r, doc |-> nodes[j].doc]]
Adopt(st, h) == LET m == [j \in 1..Len(h) |-> st.nx + j - 1] IN
  [st EXCEPT !.heap = [n \in st.nx..(st.nx + Len(h) - 1) |->
                         [h[n - st.nx + 1] EXCEPT !.r = RenameRefs(h[n - st.nx + 1].cid, @, m)]] @@ @,
             !.nx = @ + Len(h)]
FileHeap(fi, b, d) == [j \in 1..fi.n |-> LET x == ReadChunk(fi, b, j) IN [cid |-> x.cid, r |-> x.r, doc |-> d]]
Unreadable(fi, b) == { j \in 1..fi.n : ~ReadChunk(fi, b, j).ok }
KeepHands(st, d) == [h \in { x \in DOMAIN st.hand : st.hand[x] \notin DOMAIN st.heap \/ st.heap[st.hand[x]].doc # d } |-> st.hand[h]]

New(st, e) == LET s == Adopt([st EXCEPT !.hand = KeepHands(st, e.d)], NodeHeap(e.nodes)) IN
  Then([s EXCEPT !.roots[e.d] = st.nx + e.root - 1], <<>>)

\* the file as the library shows it: chunks, objects by class, header values
Shown(fi, e) ==
  Say(e.chunks # [j \in 1..fi.n |-> << fi.chunks[j].c, fi.chunks[j].size >>], "structure: walking the chunks does not give those in the file")
  \o Say(e.walked # [j \in 1..fi.n |-> fi.chunks[j].at - 1], "structure: chunk positions")
  \o Flat([k \in 1..Len(e.byclass) |->
       LET want == SelectSeq([j \in 1..fi.n |-> j], LAMBDA j : \E x \in 1..Len(e.byclass[k].cs) : fi.chunks[j].c = ClassBytes[e.byclass[k].cs[x]])
       IN Say(RangeOf(e.byclass[k].got) # RangeOf(want) \/ Len(e.byclass[k].got) # Len(want),
              "structure: objects of class " \o ToString(e.byclass[k].cs))])
  \o Say(e.when # fi.h.when, "header: save time") \o Say(Padded(e.creator) # fi.h.creator, "header: creator version")

Open(st, e) ==
  LET b == IF Has(e, "bytes") THEN e.bytes ELSE st.disk[e.d]
      fi == ParseFile(b) IN
  IF ~fi.ok \/ Unreadable(fi, b) # {} THEN Then(st, << "structure: there is no well-formed file to open" >>)
  ELSE IF Has(e, "err") THEN Then(st, << "content: a well-formed file does not open: " \o e.err >>)
  ELSE LET s == Adopt([st EXCEPT !.hand = KeepHands(st, e.d)], FileHeap(fi, b, e.d)) IN
       Then([s EXCEPT !.roots[e.d] = st.nx + fi.root - 1, !.disk[e.d] = b],
            IF Has(e, "chunks") THEN Shown(fi, e) ELSE <<>>)

Create(st, e) == LET x == [cid |-> e.cid, r |-> RenameRefs(e.cid, e.rec, st.hand), doc |-> e.d] IN
  Then([st EXCEPT !.heap = (st.nx :> x) @@ @, !.hand = (e.h :> st.nx) @@ @, !.nx = @ + 1], <<>>)

Hold(st, e) == LET f == Find(st, e.at) IN
  IF ~f.ok THEN Then(st, Lost(e)) ELSE Then([st EXCEPT !.hand = (e.h :> f.obj) @@ @], <<>>)
LetGo(st, e) == Then([st EXCEPT !.hand = [x \in (DOMAIN @) \ {e.h} |-> @[x]]], <<>>)

Copy(st, e) == LET f == Find(st, e.at)
                   h == NodeHeap(e.nodes)
                   s == Adopt(st, h) IN
  IF ~f.ok THEN Then(st, Lost(e))
  ELSE IF Has(e, "err") THEN Then(st, << "copy: a copy was refused: " \o e.err >>)
  ELSE Then([s EXCEPT !.hand = (e.h :> st.nx + e.root - 1) @@ @],
            [k \in 1..Len(TreeDiff(st.heap, f.obj, h, e.root, {})) |-> "copy: the copy: " \o TreeDiff(st.heap, f.obj, h, e.root, {})[k]]
            \o Say(\E j \in 1..Len(h) : h[j].doc # e.d, "copy: part of the copy belongs to another document")
            \o Say(e.alias, "copy: an object is shared between the copy and its source"))

\* ---- what navigation shows ---------------------------------------------
View(st, e) == LET x == StartOf(st, e.from)
                   h == NodeHeap(e.nodes)
                   d == Differ(st.heap, x, h, e.root, FALSE) IN
  Then(st, [k \in 1..Len(d) |-> "content: navigation shows: " \o d[k]]
           \o Say(\E j \in 1..Len(e.nums), k \in 1..Len(e.nums) : j # k /\ e.nums[j] = e.nums[k] /\ h[j].doc = h[k].doc,
                  "identity: one number for two objects"))
Same(st, e) == LET a == Find(st, e.a)  b == Find(st, e.b) IN
  IF ~a.ok \/ ~b.ok THEN Then(st, Lost(e))
  ELSE Then(st, Say((a.obj = b.obj) # e.is, IF e.is THEN "identity: one object for two stored ones"
                                            ELSE "identity: two objects for one stored one"))
\* ---- what the bin says --------------------------------------------------
Bin(st, d) == MobsOf(st.heap, st.roots[d])
AtPlace(ms, k) == IF k < 0 \/ k >= Len(ms) THEN (IF k = -1 THEN 0 ELSE -1) ELSE ms[k + 1]
FindMob(st, e) == LET ms == Bin(st, e.d)
                      want == ById(st.heap, ms, e.id)
                      got == AtPlace(ms, e.got)
  IN Then(st, IF want = {} THEN Say(e.got # -1, "lookup: a mob for an id no mob has") 
              ELSE Say(got \notin want, IF got = 0 THEN "lookup: a mob of the bin is not found" ELSE "lookup: not a mob with that id"))
Filters(st, e) == LET ms == Bin(st, e.d)  h == st.heap IN
  IF \E j \in 1..Len(ms) : ms[j] \notin DOMAIN h \/ h[ms[j]].cid # "CMPO" THEN Then(st, <<>>)
  ELSE LET got(s) == [j \in 1..Len(s) |-> AtPlace(ms, s[j])] IN
  Then(st, Say(got(e.mobs) # ms, "filters: the list of mobs") \o Say(got(e.comps) # Compositions(h, ms), "filters: composition mobs")
           \o Say(got(e.masters) # Masters(h, ms), "filters: master mobs") \o Say(got(e.top) # TopLevel(h, ms), "filters: top level mobs"))
Deps(st, e) == LET f == Find(st, e.at)  ms == Bin(st, e.d) IN
  IF ~f.ok THEN Then(st, Lost(e))
  ELSE IF ~DistinctIds(st.heap, Append(ms, f.obj)) THEN Then(st, <<>>)
  ELSE Then(st, DepsBad(st.heap, ms, f.obj, [j \in 1..Len(e.got) |-> AtPlace(ms, e.got[j])]))
Clip(st, e) == LET f == Find(st, e.at)  ms == Bin(st, e.d) IN
  IF ~f.ok THEN Then(st, Lost(e)) ELSE Then(st, ClipBad(st.heap, ms, f.obj, AtPlace(ms, e.mob), e.track))
Kind(st, e) == LET f == Find(st, e.at) IN
  IF ~f.ok THEN Then(st, Lost(e))
  ELSE LET n == BEInt(st.heap[f.obj].r["media_kind_id"]) IN
       Then(st, Say((IF e.n = <<>> THEN "none" ELSE e.n[1]) # KindName(IF n > 32767 THEN n - 65536 ELSE n), "clip: media kind name and number"))

NamesOf(st, e) == LET f == Find(st, e.at) IN
  IF ~f.ok THEN Then(st, Lost(e)) ELSE Then(st, NamesBad(st.heap, f.obj, e.v))

Flag(st, e) == Then(st, Say(~e.ok, e.what))
Spoil(st, e) == LET f == Find(st, e.at) IN
  IF ~f.ok THEN Then(st, Lost(e))
  ELSE Then([st EXCEPT !.spoiled = IF e.on THEN @ \union {f.obj} ELSE @ \ {f.obj}], <<>>)

\* ---- saving -------------------------------------------------------------
Refused(st, d) == { x \in RangeOf(Reach(st.heap, st.roots[d])) :
                     x \notin DOMAIN st.heap \/ x \in st.spoiled \/ (x \in DOMAIN st.heap /\ st.heap[x].doc # d) }
Opens(b) == LET fi == ParseFile(b) IN fi.ok /\ ReadChunk(fi, b, fi.root).ok
Structure(fi, b, h) ==
  Say(fi.root # fi.n, "structure: the root is not the last chunk")
  \o Say(fi.end # Len(b), "structure: the chunks do not end with the file")
  \o Say(\E j \in 1..fi.n : \E k \in RangeOf(RefsOf(h[j].cid, h[j].r)) : k >= j, "structure: a reference to a later chunk")
  \o Say(Cardinality(RangeOf(Reach(h, fi.root))) # fi.n, "structure: chunks nothing refers to")
Save(st, e) ==
  LET ref == Refused(st, e.d) IN
  IF ref # {} THEN
     Then(st, Say(Has(e, "bytes"), IF ref \subseteq st.spoiled THEN "refusal: a value no file can hold was saved"
                                   ELSE "refusal: an object of another document was saved")
              \o Say(Has(e, "left") /\ Opens(e.left), "failure: what a failed save left opens as a document"))
  ELSE IF Has(e, "err") THEN Then(st, << "content: a document could not be saved: " \o e.err >>)
  ELSE LET fi == ParseFile(e.bytes) IN
    IF ~fi.ok THEN Then(st, << "structure: not a well-formed file: " \o fi.why >>)
    ELSE IF Unreadable(fi, e.bytes) # {} THEN
      LET j == CHOOSE j \in Unreadable(fi, e.bytes) : TRUE IN
      Then(st, << "structure: object cannot be read: " \o ReadChunk(fi, e.bytes, j).cid \o " " \o ReadChunk(fi, e.bytes, j).why >>)
    ELSE LET h == FileHeap(fi, e.bytes, e.d)
             d == Differ(st.heap, st.roots[e.d], h, fi.root, TRUE)
         IN Then([st EXCEPT !.disk[e.d] = e.bytes],
                 Say(fi.bo # e.bo, "structure: byte order") \o Structure(fi, e.bytes, h)
                 \o [k \in 1..Len(d) |-> "content: the saved file: " \o d[k]]
                 \o (IF Has(e, "when") THEN Say(e.when # fi.h.when, "header: save time") \o Say(Padded(e.creator) # fi.h.creator, "header: creator version") ELSE <<>>))

Apply(st, e) ==
  CASE e.op = "new"    -> New(st, e)
    [] e.op = "open"   -> Open(st, e)
    [] e.op = "create" -> Create(st, e)
    [] e.op = "hold"   -> Hold(st, e)
    [] e.op = "drop"   -> LetGo(st, e)
    [] e.op = "copy"   -> Copy(st, e)
    [] e.op = "view"   -> View(st, e)
    [] e.op = "same"   -> Same(st, e)
    [] e.op = "findmob" -> FindMob(st, e)
    [] e.op = "filters" -> Filters(st, e)
    [] e.op = "deps"   -> Deps(st, e)
    [] e.op = "clip"   -> Clip(st, e)
    [] e.op = "kind"   -> Kind(st, e)
    [] e.op = "names"  -> NamesOf(st, e)
    [] e.op = "flag"   -> Flag(st, e)
    [] e.op = "spoil"  -> Spoil(st, e)
    [] e.op = "save"   -> Save(st, e)
    [] OTHER           -> Edit(st, e)
=============================================================================
