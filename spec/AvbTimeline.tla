--------------------------- MODULE AvbTimeline ----------------------------
(***************************************************************************)
(* Sequences in time.  A sequence is a list of [tr, len]: a transition or  *)
(* material, and its length.  What overlaps what is defined here from      *)
(* first principles: material follows material, a transition lies over the *)
(* end of the material before it (and the start of that after it).         *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

RECURSIVE SumLen(_, _, _)
\* time material takes up in the first n components, less what transitions overlap
SumLen(s, n, acc) == IF n = 0 THEN acc ELSE SumLen(s, n - 1, IF s[n].tr THEN acc - s[n].len ELSE acc + s[n].len)
Total(s) == SumLen(s, Len(s), 0)
Start(s, j) == SumLen(s, IF s[j].tr THEN j ELSE j - 1, 0)
Positions(s) == [j \in 1..Len(s) |-> Start(s, j)]
Holds(s, j, t) == s[j].len > 0 /\ Start(s, j) <= t /\ t < Start(s, j) + s[j].len

Solid(s) == { j \in 1..Len(s) : s[j].len > 0 }
Before(s, j) == { k \in Solid(s) : k < j }
After(s, j) == { k \in Solid(s) : k > j }
MaxOf(S) == CHOOSE x \in S : \A y \in S : y <= x
MinOf(S) == CHOOSE x \in S : \A y \in S : y >= x
\* no two transitions meet, and no material is shorter than the transitions over it: a time has one answer
Lookable(s) ==
  /\ \A j \in Solid(s) : s[j].tr /\ Before(s, j) # {} => ~s[MaxOf(Before(s, j))].tr
  /\ \A j \in Solid(s) : ~s[j].tr =>
       (IF Before(s, j) # {} /\ s[MaxOf(Before(s, j))].tr THEN s[MaxOf(Before(s, j))].len ELSE 0)
       + (IF After(s, j) # {} /\ s[MinOf(After(s, j))].tr THEN s[MinOf(After(s, j))].len ELSE 0) <= s[j].len
\* and every transition lies between two materials
WellFormed(s) == Lookable(s) /\ \A j \in Solid(s) : s[j].tr => Before(s, j) # {} /\ After(s, j) # {}

\* the component at a time: transitions first, else the material there, else the nearest
AtTime(s, t) ==
  LET trs == { j \in Solid(s) : s[j].tr /\ Holds(s, j, t) }
      mat == { j \in Solid(s) : ~s[j].tr /\ Holds(s, j, t) }
  IN IF Solid(s) = {} THEN 0
     ELSE IF trs # {} THEN MinOf(trs)
     ELSE IF mat # {} THEN MinOf(mat)
     ELSE IF t < 0 THEN MinOf(Solid(s)) ELSE MaxOf(Solid(s))
StartAt(s, j) == IF j = 0 THEN 0 ELSE Start(s, j)
=============================================================================
