----------------------------- MODULE AvbGraph -----------------------------
(***************************************************************************)
(* Documents as graphs of objects.  A heap maps numbers to nodes           *)
(*   [cid, r, doc]   class, properties (references are numbers of the heap *)
(*                   in 4 bytes), document the object belongs to.          *)
(* Which parts of an object are references is read off the layout table.   *)
(***************************************************************************)
EXTENDS AvbFile

RefB(n) == NatBytes(n, 4)
RECURSIVE HasRef(_)
HasRef(it) == CASE it.op = "fld" -> it.t = "ref"
                [] it.op \in {"refs", "tracks", "binitems", "attrs"} -> TRUE
                [] it.op \in {"recs", "recbody"} -> \E j \in 1..Len(it.items) : HasRef(it.items[j])
                [] it.op = "case" -> \E j \in 1..Len(it.alts) : it.alts[j][2] = "ref"
                [] OTHER -> FALSE
AllItems(c) == Flat([s \in 1..Len(Classes[c].secs) |->
                 Classes[c].secs[s].items \o Flat([x \in 1..Len(Classes[c].secs[s].exts) |-> Classes[c].secs[s].exts[x].items])])
RefItems == TLCEval([c \in ClassIds |-> TLCEval(SelectSeq(AllItems(c), HasRef))])
TrackRefs == TLCEval(SelectSeq(TrackFields, LAMBDA f : f[3] = "ref"))

\* ---- the references of an object, in layout order ----------------------
RECURSIVE ItemRefs(_, _, _, _)
RECURSIVE ItemsRefs(_, _, _)
ItemRefs(it, w, rec, par) ==
  CASE it.op = "fld"  -> << BEInt(w) >>
    [] it.op = "refs" -> [j \in 1..Len(w) |-> BEInt(w[j])]
    [] it.op \in {"recs", "recbody"} -> Flat([j \in 1..Len(w) |-> ItemsRefs(it.items, w[j], rec)])
    [] it.op = "case" -> IF CaseType(it.alts, CaseKey(it, rec, par)) = "ref" THEN << BEInt(w) >> ELSE <<>>
    [] it.op = "tracks" -> Flat([j \in 1..Len(w) |-> Flat([f \in 1..Len(TrackRefs) |->
                             IF TrackRefs[f][2] \in DOMAIN w[j] THEN << BEInt(w[j][TrackRefs[f][2]]) >> ELSE <<>>])])
    [] it.op = "binitems" -> [j \in 1..Len(w) |-> BEInt(w[j]["mob"])]
    [] it.op = "attrs" -> Flat([j \in 1..Len(w) |-> IF w[j].t = 3 THEN << BEInt(w[j].v) >> ELSE <<>>])
    [] OTHER -> <<>>
ItemsRefs(items, rec, par) == Flat([k \in 1..Len(items) |->
   IF "n" \in DOMAIN items[k] /\ items[k].n \in DOMAIN rec /\ HasRef(items[k])
   THEN ItemRefs(items[k], rec[items[k].n], rec, par) ELSE <<>>])
RefsOf(cid, rec) == Flat([k \in 1..Len(RefItems[cid]) |->
   IF RefItems[cid][k].n \in DOMAIN rec THEN ItemRefs(RefItems[cid][k], rec[RefItems[cid][k].n], rec, << >>) ELSE <<>>])

\* ---- an object with its references renamed by the function m -----------
Ren(m, w) == LET n == BEInt(w) IN IF n = 0 THEN w ELSE IF n \in DOMAIN m THEN RefB(m[n]) ELSE << 255, 255, 255, 255 >>
RECURSIVE RenItem(_, _, _, _, _)
RECURSIVE RenItems(_, _, _, _)
RenItem(it, w, rec, par, m) ==
  CASE it.op = "fld"  -> Ren(m, w)
    [] it.op = "refs" -> [j \in 1..Len(w) |-> Ren(m, w[j])]
    [] it.op \in {"recs", "recbody"} -> [j \in 1..Len(w) |-> RenItems(it.items, w[j], rec, m)]
    [] it.op = "case" -> IF CaseType(it.alts, CaseKey(it, rec, par)) = "ref" THEN Ren(m, w) ELSE w
    [] it.op = "tracks" -> [j \in 1..Len(w) |-> [x \in DOMAIN w[j] |->
                              IF \E f \in 1..Len(TrackRefs) : TrackRefs[f][2] = x THEN Ren(m, w[j][x]) ELSE w[j][x]]]
    [] it.op = "binitems" -> [j \in 1..Len(w) |-> [w[j] EXCEPT !["mob"] = Ren(m, @)]]
    [] it.op = "attrs" -> [j \in 1..Len(w) |-> IF w[j].t = 3 THEN [w[j] EXCEPT !.v = Ren(m, @)] ELSE w[j]]
    [] OTHER -> w
RenItems(items, rec, par, m) ==
  [x \in DOMAIN rec |-> LET ks == { k \in 1..Len(items) : "n" \in DOMAIN items[k] /\ items[k].n = x /\ HasRef(items[k]) }
                        IN IF ks = {} THEN rec[x] ELSE RenItem(items[CHOOSE k \in ks : TRUE], rec[x], rec, par, m)]
RenameRefs(cid, rec, m) == IF RefItems[cid] = <<>> THEN rec ELSE RenItems(RefItems[cid], rec, << >>, m)

\* ---- reachability ------------------------------------------------------
\* the numbers reachable from those on the stack, depth first, each once
RECURSIVE Dfs(_, _, _, _)
Dfs(h, stack, seq, set) ==
  IF stack = <<>> THEN seq
  ELSE LET x == Head(stack) IN
       IF x = 0 \/ x \in set THEN Dfs(h, Tail(stack), seq, set)
       ELSE IF x \notin DOMAIN h THEN Dfs(h, Tail(stack), Append(seq, x), set \union {x})
       ELSE Dfs(h, RefsOf(h[x].cid, h[x].r) \o Tail(stack), Append(seq, x), set \union {x})
Reach(h, x) == Dfs(h, << x >>, <<>>, {})
RangeOf(s) == { s[j] : j \in 1..Len(s) }
Index(s) == [x \in RangeOf(s) |-> CHOOSE j \in 1..Len(s) : s[j] = x]

\* what a writer makes of a track list: a lock number for every track
Stored(rec) == IF "tracks" \notin DOMAIN rec THEN rec
  ELSE [rec EXCEPT !["tracks"] = [j \in 1..Len(@) |-> IF "lock_number" \in DOMAIN @[j] THEN @[j] ELSE ("lock_number" :> << 0, 0 >>) @@ @[j]]]

DiffNames(a, b) == { x \in (DOMAIN a) \union (DOMAIN b) : x \notin DOMAIN a \/ x \notin DOMAIN b \/ (x \in DOMAIN a /\ x \in DOMAIN b /\ a[x] # b[x]) }
\* [first difference, or <<>>] between the graphs below x1 and x2; sharing counts
RECURSIVE FirstDiffNode(_, _, _, _, _, _, _, _)
FirstDiffNode(h1, s1, i1, h2, s2, i2, stored, j) ==
  IF j > Len(s1) \/ j > Len(s2) THEN IF Len(s1) = Len(s2) THEN <<>> ELSE << "number of objects or their sharing" >>
  ELSE IF s1[j] \notin DOMAIN h1 \/ s2[j] \notin DOMAIN h2 THEN << "a reference to nothing" >>
  ELSE LET a == h1[s1[j]]  b == h2[s2[j]] IN
       IF a.cid # b.cid THEN << "a " \o b.cid \o " where a " \o a.cid \o " was expected" >>
       ELSE IF a.doc # b.doc THEN << "a " \o a.cid \o " that belongs to another document" >>
       ELSE LET x == RenameRefs(a.cid, a.r, i1)
                y == RenameRefs(b.cid, b.r, i2)
                d == DiffNames(IF stored THEN Stored(x) ELSE x, IF stored THEN Stored(y) ELSE y)
            IN IF d # {} THEN << a.cid \o " differs in " \o ToString(d) >>
               ELSE FirstDiffNode(h1, s1, i1, h2, s2, i2, stored, j + 1)
Differ(h1, x1, h2, x2, stored) ==
  LET s1 == Reach(h1, x1)  s2 == Reach(h2, x2)
  IN FirstDiffNode(h1, s1, Index(s1), h2, s2, Index(s2), stored, 1)

\* the same, for graphs unfolded into trees: sharing does not count, nor documents
RECURSIVE TreeDiff(_, _, _, _, _)
RECURSIVE TreesDiff(_, _, _, _, _, _)
Blank(cid, rec) == RenameRefs(cid, rec, << >>)
TreeDiff(h1, x1, h2, x2, done) ==
  IF x1 = 0 \/ x2 = 0 THEN IF x1 = x2 THEN <<>> ELSE << "a null reference" >>
  ELSE IF << x1, x2 >> \in done THEN <<>>
  ELSE IF x1 \notin DOMAIN h1 \/ x2 \notin DOMAIN h2 THEN << "a reference to nothing" >>
  ELSE LET a == h1[x1]  b == h2[x2] IN
       IF a.cid # b.cid THEN << "a " \o b.cid \o " where a " \o a.cid \o " was expected" >>
       ELSE LET d == DiffNames(Blank(a.cid, a.r), Blank(b.cid, b.r)) IN
            IF d # {} THEN << a.cid \o " differs in " \o ToString(d) >>
            ELSE TreesDiff(h1, RefsOf(a.cid, a.r), h2, RefsOf(b.cid, b.r), done \union {<< x1, x2 >>}, 1)
TreesDiff(h1, r1, h2, r2, done, j) ==
  IF Len(r1) # Len(r2) THEN << "number of references" >>
  ELSE IF j > Len(r1) THEN <<>>
  ELSE LET d == TreeDiff(h1, r1[j], h2, r2[j], done) IN
       IF d # <<>> THEN d ELSE TreesDiff(h1, r1, h2, r2, done, j + 1)
=============================================================================
