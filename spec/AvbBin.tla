------------------------------ MODULE AvbBin ------------------------------
(***************************************************************************)
(* What a bin, its mobs and source clips mean, as functions of a heap of   *)
(* objects (AvbGraph).  Mobs are named by their place in the bin (from 0). *)
(***************************************************************************)
EXTENDS AvbGraph

\* the bin's mobs in order, as heap numbers
MobsOf(h, root) == LET its == h[root].r["items"] IN [j \in 1..Len(its) |-> BEInt(its[j]["mob"])]
IdOf(h, x) == IF x \in DOMAIN h /\ "mob_id" \in DOMAIN h[x].r THEN << h[x].r["mob_id"] >> ELSE <<>>
ById(h, ms, id) == { ms[j] : j \in { k \in 1..Len(ms) : IdOf(h, ms[k]) = << id >> } }
PickMobs(h, ms, P(_)) == SelectSeq(ms, P)
MobType(h, x) == BEInt(h[x].r["mob_type_id"])
Usage(h, x) == h[x].r["usage_code"]
Compositions(h, ms) == SelectSeq(ms, LAMBDA x : MobType(h, x) = 1)
Masters(h, ms) == SelectSeq(ms, LAMBDA x : MobType(h, x) = 2)
TopLevel(h, ms) == SelectSeq(ms, LAMBDA x : MobType(h, x) = 1 /\ Usage(h, x) = << 0, 0, 0, 0 >>)

\* the mobs source clips inside x name, in the bin
ClipsIn(h, x) == { y \in RangeOf(Reach(h, x)) : y \in DOMAIN h /\ h[y].cid = "SCLP" }
Names(h, ms, x) == UNION { UNION { ById(h, ms, id) : id \in RangeOf(IdOf(h, c)) } : c \in ClipsIn(h, x) }
NameTable(h, ms, x) == TLCEval([m \in RangeOf(ms) \union {x} |-> Names(h, ms, m)])
RECURSIVE Closure(_, _, _)
Closure(nt, todo, done) == IF todo = {} THEN done
  ELSE LET m == CHOOSE m \in todo : TRUE IN Closure(nt, (todo \union nt[m]) \ (done \union {m}), done \union {m})
Beyond(nt, m) == Closure(nt, nt[m], {})           \* every mob m depends on, itself if circular
DistinctIds(h, ms) == \A a, b \in RangeOf(ms) : a # b => IdOf(h, a) # IdOf(h, b) \/ IdOf(h, a) = <<>>

\* got: the mobs listed for x, nt: the mobs every mob names directly
DepsWrong(nt, x, got) ==
  LET all == Beyond(nt, x) \ {x}
      b == TLCEval([m \in all |-> Beyond(nt, m)])
      at == Index(got)
  IN IF RangeOf(got) # all THEN << "dependants: not exactly the mobs reached through source clips" >>
     ELSE IF Len(got) # Cardinality(all) THEN << "dependants: a mob twice" >>
     \* a mob on a circle cannot come after everything it depends on
     ELSE IF \E p \in all : p \notin b[p] /\ \E q \in b[p] : q \in all /\ at[q] > at[p]
          THEN << "dependants: a mob before one it depends on" >>
     ELSE <<>>
DepsBad(h, ms, x, got) == DepsWrong(NameTable(h, ms, x), x, got)

\* ---- source clips --------------------------------------------------------
KindOf(h, x) == IF x \in DOMAIN h /\ "media_kind_id" \in DOMAIN h[x].r THEN << h[x].r["media_kind_id"] >> ELSE <<>>
\* places (from 0) of the tracks of mob m that clip c names
TracksNamed(h, m, c) == LET ts == h[m].r["tracks"] IN
  { j - 1 : j \in { k \in 1..Len(ts) :
       /\ "index" \in DOMAIN ts[k] /\ ts[k]["index"] = h[c].r["track_id"]
       /\ "component" \in DOMAIN ts[k] /\ BEInt(ts[k]["component"]) # 0
       /\ KindOf(h, BEInt(ts[k]["component"])) = KindOf(h, c) } }
\* gm: heap number of the mob given (0 none), gt: place of the track given (-1 none)
ClipBad(h, ms, c, gm, gt) ==
  LET want == UNION { ById(h, ms, id) : id \in RangeOf(IdOf(h, c)) } IN
  IF want = {} THEN (IF gm # 0 \/ gt # -1 THEN << "clip: a mob or track where there is none" >> ELSE <<>>)
  ELSE IF gm \notin want THEN << "clip: not the mob it names" >>
  ELSE LET ts == TracksNamed(h, gm, c) IN
       IF ts = {} THEN (IF gt # -1 THEN << "clip: a track where there is none" >> ELSE <<>>)
       ELSE IF gt \notin ts THEN << "clip: not the track it names" >> ELSE <<>>

\* ---- media kinds: number and name ---------------------------------------
MediaKinds == << << 0, "none" >>, << 1, "picture" >>, << 2, "sound" >>, << 3, "timecode" >>, << 4, "edgecode" >>,
                 << 5, "attribute" >>, << 6, "effectdata" >>, << 7, "DescriptiveMetadata" >>, << 16, "DataEssenceTrack" >> >>
KindName(n) == LET k == { j \in 1..Len(MediaKinds) : MediaKinds[j][1] = n } IN
  IF k = {} THEN "unknown" \o ToString(n) ELSE MediaKinds[CHOOSE j \in k : TRUE][2]
=============================================================================
