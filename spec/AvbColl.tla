----------------------------- MODULE AvbColl ------------------------------
(***************************************************************************)
(* Reference lists and attribute maps as abstract collections: what every  *)
(* operation of a list / an insertion-ordered dictionary does to the       *)
(* contents and what it returns.  Elements, keys and values are numbers.   *)
(* A result is [t, v]: a kind and a sequence of numbers.  Optional numbers *)
(* are sequences of length 0 or 1.                                         *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

R(t, v) == [t |-> t, v |-> v]
None == R("none", <<>>)
Err(k) == R(k, <<>>)
Bool(b) == R("bool", << IF b THEN 1 ELSE 0 >>)
Out(s, r) == [s |-> s, r |-> r]
CMax(a, b) == IF a < b THEN b ELSE a
CMin(a, b) == IF a < b THEN a ELSE b

\* elements 1 and 3 are two objects with the same contents: equal, and yet not the same
Alike(x, y) == x = y \/ { x, y } = { 1, 3 }
AllAlike(s, t) == Len(s) = Len(t) /\ \A j \in 1..Len(s) : Alike(s[j], t[j])

\* ---- lists ---------------------------------------------------------------
LIns(s, k, x) == SubSeq(s, 1, k) \o << x >> \o SubSeq(s, k + 1, Len(s))
LDel(s, k) == SubSeq(s, 1, k) \o SubSeq(s, k + 2, Len(s))
LRev(s) == [j \in 1..Len(s) |-> s[Len(s) + 1 - j]]
Norm(i, n) == IF i < 0 THEN i + n ELSE i
InRange(i, n) == Norm(i, n) >= 0 /\ Norm(i, n) < n
Clamp(i, n) == CMin(CMax(Norm(i, n), 0), n)
\* places (from 0) a slice a:b:c selects in a list of n, c # 0
RECURSIVE Steps(_, _, _)
Steps(k, stop, c) == IF (c > 0 /\ k >= stop) \/ (c < 0 /\ k <= stop) THEN <<>> ELSE << k >> \o Steps(k + c, stop, c)
StepOf(c) == IF c = <<>> THEN 1 ELSE c[1]
Bound(x, n, c, dflt) == LET lo == IF c < 0 THEN -1 ELSE 0
                            hi == IF c < 0 THEN n - 1 ELSE n
                        IN IF x = <<>> THEN dflt
                           ELSE IF x[1] < 0 THEN CMax(x[1] + n, lo) ELSE CMin(x[1], hi)
From(a, n, c) == Bound(a, n, c, IF c < 0 THEN n - 1 ELSE 0)
Upto(b, n, c) == Bound(b, n, c, IF c < 0 THEN -1 ELSE n)
Places(a, b, c, n) == Steps(From(a, n, StepOf(c)), Upto(b, n, StepOf(c)), StepOf(c))
SetOf(s) == { s[j] : j \in 1..Len(s) }
Take(s, ps) == [j \in 1..Len(ps) |-> s[ps[j] + 1]]
RECURSIVE Without(_, _, _)
Without(s, set, j) == IF j > Len(s) THEN <<>> ELSE (IF j - 1 \in set THEN <<>> ELSE << s[j] >>) \o Without(s, set, j + 1)
RECURSIVE FirstAt(_, _, _, _)
FirstAt(s, x, j, stop) == IF j >= stop THEN -1 ELSE IF Alike(s[j + 1], x) THEN j ELSE FirstAt(s, x, j + 1, stop)
RECURSIVE Times(_, _)
Times(s, n) == IF n <= 0 THEN <<>> ELSE s \o Times(s, n - 1)
Number(s, x) == Cardinality({ j \in 1..Len(s) : Alike(s[j], x) })
Key(x, m) == (x * 7) % m
RECURSIVE SortIns(_, _, _, _)
SortIns(s, x, m, down) ==   \* x goes after every element that does not sort after it
  IF s = <<>> THEN << x >>
  ELSE LET last == s[Len(s)] IN
       IF (~down /\ Key(last, m) <= Key(x, m)) \/ (down /\ Key(last, m) >= Key(x, m)) THEN Append(s, x)
       ELSE Append(SortIns(SubSeq(s, 1, Len(s) - 1), x, m, down), last)
RECURSIVE Sorted(_, _, _)
Sorted(s, m, down) == IF s = <<>> THEN <<>> ELSE SortIns(Sorted(SubSeq(s, 1, Len(s) - 1), m, down), s[Len(s)], m, down)

ListOp(s, e) ==
  LET n == Len(s) IN
  CASE e.op = "append"  -> Out(Append(s, e.x), None)
    [] e.op \in {"extend", "iadd", "extendgen"} -> Out(s \o e.xs, None)
    [] e.op = "extendbad" -> Out(s \o e.xs, Err("ZeroDivisionError"))      \* the iterable fails after xs
    [] e.op = "insert"  -> Out(LIns(s, Clamp(e.i, n), e.x), None)
    [] e.op = "remove"  -> LET k == FirstAt(s, e.x, 0, n) IN
                           IF k < 0 THEN Out(s, Err("ValueError")) ELSE Out(LDel(s, k), None)
    [] e.op = "pop"     -> LET i == IF e.at = <<>> THEN -1 ELSE e.at[1] IN
                           IF ~InRange(i, n) THEN Out(s, Err("IndexError"))
                           ELSE Out(LDel(s, Norm(i, n)), R("val", << s[Norm(i, n) + 1] >>))
    [] e.op = "del"     -> IF InRange(e.i, n) THEN Out(LDel(s, Norm(e.i, n)), None) ELSE Out(s, Err("IndexError"))
    [] e.op = "get"     -> IF InRange(e.i, n) THEN Out(s, R("val", << s[Norm(e.i, n) + 1] >>)) ELSE Out(s, Err("IndexError"))
    [] e.op = "set"     -> IF InRange(e.i, n) THEN Out([s EXCEPT ![Norm(e.i, n) + 1] = e.x], None) ELSE Out(s, Err("IndexError"))
    [] e.op \in {"getslice", "delslice", "setslice"} /\ StepOf(e.c) = 0 -> Out(s, Err("ValueError"))
    [] e.op = "getslice" -> Out(s, R("list", Take(s, Places(e.a, e.b, e.c, n))))
    [] e.op = "delslice" -> Out(Without(s, SetOf(Places(e.a, e.b, e.c, n)), 1), None)
    [] e.op = "setslice" ->
         LET ps == Places(e.a, e.b, e.c, n) IN
         IF StepOf(e.c) = 1 THEN
            LET lo == From(e.a, n, 1)
                hi == CMax(lo, Upto(e.b, n, 1))
            IN Out(SubSeq(s, 1, lo) \o e.xs \o SubSeq(s, hi + 1, n), None)
         ELSE IF Len(ps) # Len(e.xs) THEN Out(s, Err("ValueError"))
         ELSE Out([j \in 1..n |-> IF j - 1 \in SetOf(ps) THEN e.xs[CHOOSE k \in 1..Len(ps) : ps[k] = j - 1] ELSE s[j]], None)
    [] e.op = "clear"   -> Out(<<>>, None)
    [] e.op = "sort"    -> Out(Sorted(s, e.m, e.down), None)
    [] e.op = "reverse" -> Out(LRev(s), None)
    [] e.op = "index"   -> LET lo == IF e.a = <<>> THEN 0 ELSE Clamp(e.a[1], n)
                               hi == IF e.b = <<>> THEN n ELSE Clamp(e.b[1], n)
                               k  == FirstAt(s, e.x, lo, hi)
                           IN Out(s, IF k < 0 THEN Err("ValueError") ELSE R("int", << k >>))
    [] e.op = "count"   -> Out(s, R("int", << Number(s, e.x) >>))
    [] e.op = "in"      -> Out(s, Bool(Number(s, e.x) > 0))
    [] e.op = "notin"   -> Out(s, Bool(Number(s, e.x) = 0))
    [] e.op \in {"iter", "tuple", "unpack", "enum"} -> Out(s, R("list", s))
    [] e.op = "reversed" -> Out(s, R("list", LRev(s)))
    [] e.op = "sorted"  -> Out(s, R("list", Sorted(s, e.m, e.down)))
    [] e.op = "len"     -> Out(s, R("int", << n >>))
    [] e.op = "bool"    -> Out(s, Bool(n > 0))
    [] e.op = "add"     -> Out(s, R("list", s \o e.xs))
    [] e.op = "radd"    -> Out(s, R("list", e.xs \o s))
    [] e.op = "mul"     -> Out(s, R("list", Times(s, e.i)))
    [] e.op = "imul"    -> Out(Times(s, e.i), None)
    [] e.op = "eq"      -> Out(s, Bool(AllAlike(s, e.xs)))
    [] e.op = "ne"      -> Out(s, Bool(~AllAlike(s, e.xs)))
    [] e.op = "extendself" -> Out(s \o s, None)
    [] e.op = "sliceself" -> Out(s \o s, None)                            \* s[len:] = s

\* a loop over the list that changes the list: before each step but the last ones an operation
\* of the body is done; what comes next is decided by the place reached, not by what was there
\* when the loop began
RECURSIVE LoopOver(_, _, _, _)
LoopOver(s, k, e, seen) ==
  IF k < 0 \/ k >= Len(s) THEN Out(s, R("list", seen))
  ELSE LET was == Len(seen) + 1
           nx == IF was <= Len(e.body) THEN TLCEval(ListOp(s, e.body[was]).s) ELSE s
       IN LoopOver(nx, IF e.back THEN k - 1 ELSE k + 1, e, Append(seen, s[k + 1]))
ListDo(s, e) == IF e.op = "loop" THEN LoopOver(s, IF e.back THEN Len(s) - 1 ELSE 0, e, <<>>) ELSE ListOp(s, e)

\* ---- ordered maps: sequences of [k, v] -----------------------------------
At(m, k) == { j \in 1..Len(m) : m[j].k = k }
Pos(m, k) == CHOOSE j \in 1..Len(m) : m[j].k = k
KV(k, v) == [k |-> k, v |-> v]
MSet(m, k, v) == IF At(m, k) = {} THEN Append(m, KV(k, v)) ELSE [m EXCEPT ![Pos(m, k)].v = v]
MDel(m, k) == LDel(m, Pos(m, k) - 1)
RECURSIVE MSets(_, _, _)
MSets(m, xs, j) == IF j > Len(xs) THEN m ELSE MSets(MSet(m, xs[j].k, xs[j].v), xs, j + 1)
Flat2(m) == [j \in 1..(2 * Len(m)) |-> IF j % 2 = 1 THEN m[(j + 1) \div 2].k ELSE m[j \div 2].v]
Keys(m) == [j \in 1..Len(m) |-> m[j].k]
Vals(m) == [j \in 1..Len(m) |-> m[j].v]
AsMap(xs) == MSets(<<>>, xs, 1)
SameMap(a, b) == Len(a) = Len(b) /\ \A j \in 1..Len(a) : At(b, a[j].k) # {} /\ Alike(b[Pos(b, a[j].k)].v, a[j].v)

\* what an attribute can be in a file
StoredTypes == { "integer", "boolean", "text", "bytearray", "object", "nothing" }

MapOp(m, e) ==
  LET has == "k" \in DOMAIN e /\ At(m, e.k) # {}
      cur == IF has THEN m[Pos(m, e.k)].v ELSE 0
  IN
  CASE e.op = "set"     -> Out(MSet(m, e.k, e.x), None)
    [] e.op = "del"     -> IF has THEN Out(MDel(m, e.k), None) ELSE Out(m, Err("KeyError"))
    [] e.op = "get"     -> IF has THEN Out(m, R("val", << cur >>)) ELSE Out(m, Err("KeyError"))
    [] e.op = "getd"    -> Out(m, R("val", << IF has THEN cur ELSE IF e.d = <<>> THEN 0 ELSE e.d[1] >>))
    [] e.op = "pop"     -> IF has THEN Out(MDel(m, e.k), R("val", << cur >>))
                           ELSE IF e.d = <<>> THEN Out(m, Err("KeyError")) ELSE Out(m, R("val", << e.d[1] >>))
    [] e.op = "popitem" -> IF m = <<>> THEN Out(m, Err("KeyError"))
                           ELSE LET j == IF e.last THEN Len(m) ELSE 1 IN Out(LDel(m, j - 1), R("list", << m[j].k, m[j].v >>))
    [] e.op = "setdefault" -> IF has THEN Out(m, R("val", << cur >>))
                              ELSE Out(MSet(m, e.k, IF e.d = <<>> THEN 0 ELSE e.d[1]), R("val", << IF e.d = <<>> THEN 0 ELSE e.d[1] >>))
    [] e.op \in {"update", "updatepairs", "ior", "updateattr"} -> Out(MSets(m, e.xs, 1), None)
    [] e.op = "clear"   -> Out(<<>>, None)
    [] e.op \in {"keys", "iter"} -> Out(m, R("list", Keys(m)))
    [] e.op = "reversed" -> Out(m, R("list", LRev(Keys(m))))
    [] e.op = "values"  -> Out(m, R("list", Vals(m)))
    [] e.op \in {"items", "dict"} -> Out(m, R("list", Flat2(m)))
    [] e.op = "len"     -> Out(m, R("int", << Len(m) >>))
    [] e.op = "bool"    -> Out(m, Bool(m # <<>>))
    [] e.op = "in"      -> Out(m, Bool(has))
    [] e.op = "move"    -> IF ~has THEN Out(m, Err("KeyError"))
                           ELSE Out(IF e.last THEN Append(MDel(m, e.k), KV(e.k, cur)) ELSE << KV(e.k, cur) >> \o MDel(m, e.k), None)
    [] e.op = "eq"      -> Out(m, Bool(SameMap(m, AsMap(e.xs))))
    [] e.op = "eqordered" -> Out(m, Bool(Keys(m) = Keys(AsMap(e.xs)) /\ AllAlike(Vals(m), Vals(AsMap(e.xs)))))
    [] e.op = "or"      -> Out(m, R("list", Flat2(MSets(m, e.xs, 1))))
    [] e.op = "ror"     -> Out(m, R("list", Flat2(MSets(AsMap(e.xs), m, 1))))
    \* a value put under a key, the document saved, the key put back
    [] e.op = "savevalue" -> Out(m, IF e.ty \in StoredTypes THEN None ELSE Err("refused"))
    [] e.op = "savekey" -> Out(m, IF e.ty = "text" THEN None ELSE Err("refused"))
\* a loop over keys, values or items that gives new values to keys that are there
RECURSIVE LoopMap(_, _, _, _)
LoopMap(m, j, e, seen) ==
  IF j > Len(m) THEN Out(m, R("list", seen))
  ELSE LET b == IF j <= Len(e.body) /\ At(m, e.body[j].k) # {} THEN e.body[j] ELSE [k |-> 0]
           nx == IF b.k = 0 THEN m ELSE TLCEval(MSet(m, b.k, b.x))
       IN LoopMap(nx, j + 1, e, seen \o (IF e.of = "values" THEN <<>> ELSE << m[j].k >>) \o (IF e.of = "keys" THEN <<>> ELSE << m[j].v >>))
MapDo(m, e) == IF e.op = "loop" THEN LoopMap(m, 1, e, <<>>) ELSE MapOp(m, e)
=============================================================================
