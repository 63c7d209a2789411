----------------------------- MODULE Timeline -----------------------------
(***************************************************************************)
(* Every sequence of up to MaxN components of length up to MaxLen, built   *)
(* one component at a time; the definitions of AvbTimeline are checked     *)
(* against each other on all of them, and those with an answer for every time are written *)
(* out (IOEnv.OUT) to be tried on the real code.                           *)
(***************************************************************************)
EXTENDS AvbTimeline, Json, IOUtils, TLCExt
CONSTANTS MaxN, MaxLen
VARIABLE comps
Comp == [tr : BOOLEAN, len : 0..MaxLen]
Init == comps = <<>> /\ TLCSet(1, <<>>)
Next == Len(comps) < MaxN /\ \E c \in Comp : comps' = Append(comps, c)
Well == WellFormed(comps)
\* the well-formed sequences cover their length: at every time one transition at most, else exactly one material
Covered == Well => \A t \in 0..(Total(comps) - 1) :
   LET trs == { j \in Solid(comps) : comps[j].tr /\ Holds(comps, j, t) }
       mat == { j \in Solid(comps) : ~comps[j].tr /\ Holds(comps, j, t) }
   IN Cardinality(trs) <= 1 /\ (trs = {} => Cardinality(mat) = 1) /\ (trs # {} => Cardinality(mat) = 2)
Ends == Well /\ Solid(comps) # {} => LET j == MaxOf(Solid(comps)) IN Start(comps, j) + comps[j].len = Total(comps)
Ordered == Well => \A j, k \in Solid(comps) : j < k => Start(comps, j) <= Start(comps, k)
Found == Well /\ Solid(comps) # {} =>
   /\ \A t \in 0..(Total(comps) - 1) : Holds(comps, AtTime(comps, t), t)
   /\ \A j \in Solid(comps) : comps[j].tr => AtTime(comps, Start(comps, j)) = j
   /\ AtTime(comps, -1) = MinOf(Solid(comps)) /\ AtTime(comps, Total(comps)) = MaxOf(Solid(comps))
Collect == Lookable(comps) => TLCSet(1, Append(TLCGet(1), comps))
Write == JsonSerialize(IOEnv.OUT, TLCGet(1))
=============================================================================
