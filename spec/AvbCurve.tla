----------------------------- MODULE AvbCurve -----------------------------
(***************************************************************************)
(* Parameter curves.  A clip is [kind, pts]: pts in order of time, each    *)
(* [t, v, it, iv, ot, ov]: time in twentieths, value in quarters, and the  *)
(* handles of a Bezier curve (into and out of the point) in the same       *)
(* units, relative to the point.                                           *)
(*                                                                         *)
(* Values are given in units of 2^-16.  Bezier curves are given as points  *)
(* (x(u), y(u)) of the curve for u in eighths: asked for the value at x(u),*)
(* the answer has to be y(u).                                              *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

Abs(x) == IF x < 0 THEN -x ELSE x
Least(x, y) == IF x < y THEN x ELSE y
Val(v) == v * 16384

\* the four points of a Bezier piece from point p to q: times in units of 1/200, values of 1/2048
XY(x, y) == [x |-> x, y |-> y]
\* a handle that reaches past the other end is shortened to it, in its own direction; one that points away is put upright
Reach(a, h, b) == IF a.x < b.x
  THEN IF h.x > b.x THEN XY(b.x, a.y + (((h.y - a.y) * (b.x - a.x)) \div (h.x - a.x))) ELSE IF h.x < a.x THEN XY(a.x, h.y) ELSE h
  ELSE IF h.x < b.x THEN XY(b.x, a.y + (((h.y - a.y) * (a.x - b.x)) \div (a.x - h.x))) ELSE IF h.x > a.x THEN XY(a.x, h.y) ELSE h
At(p) == XY(10 * p.t, 512 * p.v)
Bezier(p, q) ==
  LET a == At(p) d == At(q) IN
  << a, Reach(a, XY(a.x + 10 * p.ot, a.y + 512 * p.ov), d), Reach(d, XY(d.x + 10 * q.it, d.y + 512 * q.iv), a), d >>

\* a cubic: a Bezier piece whose handles take two fifths of the gap and follow the slope between the neighbours,
\* flattened as the point gets near either in value; flat at turning points, at the ends and at jumps
Slope(a, b, c, w) ==
  IF a = <<>> \/ c = <<>> THEN 0 ELSE
  LET l == a[1] r == c[1] IN
  IF l.t = b.t \/ r.t = b.t \/ (r.v - b.v) * (b.v - l.v) <= 0 THEN 0
  ELSE (2 * (IF r.v > l.v THEN 1 ELSE -1) * Least(Abs(r.v - b.v), Abs(b.v - l.v)) * 512 * w) \div (10 * (r.t - l.t))
Cubic(before, p, q, after) ==
  LET w == 4 * (q.t - p.t)
      a == At(p) d == At(q)
  IN << a, XY(a.x + w, a.y + Slope(before, p, <<q>>, w)), XY(d.x - w, d.y - Slope(<<p>>, q, after, w)), d >>

Weight == [k \in 0..8 |-> << (8 - k) * (8 - k) * (8 - k), 3 * (8 - k) * (8 - k) * k, 3 * (8 - k) * k * k, k * k * k >>]
OnX(P, k) == LET w == Weight[k] IN w[1] * P[1].x + w[2] * P[2].x + w[3] * P[3].x + w[4] * P[4].x
OnY(P, k) == LET w == Weight[k] IN w[1] * P[1].y + w[2] * P[2].y + w[3] * P[3].y + w[4] * P[4].y

Opt(s, j) == IF j < 1 \/ j > Len(s) THEN <<>> ELSE << s[j] >>
\* a question: the time n/d, the values allowed, the tolerance
Ask(n, d, vs, tol) == [n |-> n, d |-> d, want |-> vs, tol |-> tol]
Piece(c, j) ==
  LET p == c.pts[j] q == c.pts[j + 1]
      dt == q.t - p.t
  IN IF dt = 0 THEN <<>>
     ELSE CASE c.kind = "constant" -> [k \in 1..7 |-> Ask(8 * p.t + k * dt, 160, << Val(p.v) >>, 0)]
            [] c.kind = "linear" -> [k \in 1..7 |-> Ask(8 * p.t + k * dt, 160, << Val(p.v) + (q.v - p.v) * k * 2048 >>, 1)]
            [] c.kind = "unknown" -> <<>>
            [] OTHER -> LET P == IF c.kind = "bezier" THEN Bezier(p, q) ELSE Cubic(Opt(c.pts, j - 1), p, q, Opt(c.pts, j + 2))
                        IN [k \in 1..7 |-> Ask(OnX(P, k), 102400, << OnY(P, k) \div 16 >>, 160)]
RECURSIVE Pieces(_, _)
Pieces(c, j) == IF j >= Len(c.pts) THEN <<>> ELSE Piece(c, j) \o Pieces(c, j + 1)
\* at a key frame: its value; coincident ones: any of theirs
RECURSIVE ValuesAt(_, _, _)
ValuesAt(c, t, j) == IF j > Len(c.pts) THEN <<>>
                     ELSE (IF c.pts[j].t = t THEN << Val(c.pts[j].v) >> ELSE <<>>) \o ValuesAt(c, t, j + 1)
Keys(c) == [j \in 1..Len(c.pts) |-> [key |-> j, want |-> ValuesAt(c, c.pts[j].t, 1), tol |-> 0]]
\* just before (and just after) a key frame: almost its value, or that of the constant piece there
Beside(c) ==
  LET n == Len(c.pts)
      Near(j, side, v) == [key |-> j, side |-> side, want |-> << Val(v) >>, tol |-> 400]
      first(t) == CHOOSE j \in 1..n : c.pts[j].t = t /\ \A k \in 1..(j - 1) : c.pts[k].t # t
      last(t) == CHOOSE j \in 1..n : c.pts[j].t = t /\ \A k \in (j + 1)..n : c.pts[k].t # t
      left(j) == LET k == first(c.pts[j].t) IN IF c.kind = "constant" /\ k > 1 THEN c.pts[k - 1].v ELSE c.pts[k].v
      right(j) == c.pts[last(c.pts[j].t)].v
  IN IF c.kind = "unknown" THEN <<>>
     ELSE [j \in 1..n |-> Near(j, -1, left(j))] \o [j \in 1..n |-> Near(j, 1, right(j))]
\* before the first and after the last key frame: their values
Outside(c) ==
  LET a == c.pts[1] z == c.pts[Len(c.pts)] IN
  << Ask(a.t - 1, 20, << Val(a.v) >>, 0), Ask(a.t - 2000, 20, << Val(a.v) >>, 0),
     Ask(z.t + 1, 20, << Val(z.v) >>, 0), Ask(z.t + 2000, 20, << Val(z.v) >>, 0) >>
Questions(c) == IF Len(c.pts) = 0 THEN <<>> ELSE Keys(c) \o Beside(c) \o Outside(c) \o Pieces(c, 1)

(***************************************************************************)
(* The integral of a clip, tabulated every half frame.  It is the sum of   *)
(* trapezoids a tenth wide; the five that make up the half frame up to t   *)
(* begin at t - 6/10.  It equals the base frame of the first key frame at  *)
(* the frame that key frame is in.  V gives the curve at tenths.           *)
(***************************************************************************)
RECURSIVE Trapezoids(_, _, _)
Trapezoids(V(_), a, n) == IF n = 0 THEN 0 ELSE V(a) + V(a + 1) + Trapezoids(V, a + 1, n - 1)
\* twenty times the growth of the integral over the half frame up to t2/2
Growth(V(_), t2) == Trapezoids(V, 5 * t2 - 6, 5)
=============================================================================
