---------------------------- MODULE CurveTrace ----------------------------
(***************************************************************************)
(* Integrals reported by the real code: [center, base, lo, v, wide, part]. *)
(* v are the values of the curve at tenths from lo on, wide the table over *)
(* a range holding the centre, part tables [start, end, rows] of parts of  *)
(* it; rows are [t2, v] (times doubled).  Values in units of 2^-16.        *)
(***************************************************************************)
EXTENDS AvbCurve, Json, IOUtils
Input == JsonDeserialize(IOEnv.IN)
Rows(start, end) == [j \in 1..(2 * (end - start) + 1) |-> 2 * start + j - 1]
Times(rows) == [j \in 1..Len(rows) |-> rows[j].t2]
Judge(c) ==
  LET V(x) == c.v[x - c.lo + 1]
      w == c.wide
      r == w.rows
      from == 2 * w.start
  IN IF Times(r) # Rows(w.start, w.end) THEN << [what |-> "frames", part |-> 0] >>
     ELSE (IF r[2 * c.center - from + 1].v # c.base THEN << [what |-> "offset at the first key frame", part |-> 0] >> ELSE <<>>)
       \o (IF \E j \in 2..Len(r) : Abs(20 * (r[j].v - r[j - 1].v) - Growth(V, r[j].t2)) > 60
           THEN << [what |-> "integral", part |-> 0] >> ELSE <<>>)
       \o (LET bad == { k \in 1..Len(c.part) :
                 \/ Times(c.part[k].rows) # Rows(c.part[k].start, c.part[k].end)
                 \/ \E j \in 1..Len(c.part[k].rows) :
                       Abs(c.part[k].rows[j].v - r[c.part[k].rows[j].t2 - from + 1].v) > 1 }
           IN IF bad = {} THEN <<>> ELSE << [what |-> "part of the range", part |-> CHOOSE k \in bad : TRUE] >>)
ASSUME JsonSerialize(IOEnv.OUT, [k \in 1..Len(Input) |-> Judge(Input[k])])
VARIABLE n
Init == n = 0
Next == n < Len(Input) /\ n' = n + 1
=============================================================================
