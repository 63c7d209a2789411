----------------------------- MODULE AvbWire -----------------------------
(***************************************************************************)
(* Encoding and decoding of objects over the layout table of AvbSchema.    *)
(*                                                                         *)
(* A value of the model ("wire value"):                                    *)
(*   integers, doubles, ids, times  tuples of bytes, most significant first*)
(*   bool                           TRUE / FALSE                           *)
(*   text                           tuple of bytes (Mac Roman or UTF-8);   *)
(*                                  <<>> stands for empty / no text        *)
(*   exp10 (edit rates)             <<m, k>> = m / 10^k, k minimal         *)
(*   ref                            4 byte chunk number, 0 = null          *)
(*   mobid                          32 bytes: label, 4 octets, material    *)
(* An object is a function from its present property names to values.      *)
(***************************************************************************)
EXTENDS AvbSchema, Integers, FiniteSets, TLC

\* Added to every structural byte (section heads, tags, markers, fixed numbers,
\* terminator) that Encode emits.  0 for the real encoding; 1000 in WireMarks,
\* which uses it to locate those bytes.
CONSTANT MarkBias
Mk(s) == IF MarkBias = 0 THEN s ELSE [i \in 1..Len(s) |-> s[i] + MarkBias]

Min2(a, b) == IF a < b THEN a ELSE b
Rev(s) == [i \in 1..Len(s) |-> s[Len(s) + 1 - i]]
Sub(s, a, n) == SubSeq(s, a, a + n - 1)
Zeros(k) == [i \in 1..k |-> 0]

NatBytes(n, w) == [i \in 1..w |-> IF w - i > 3 THEN 0 ELSE (n \div (256 ^ (w - i))) % 256]
S32Bytes(n) == IF n >= 0 THEN NatBytes(n, 4)
               ELSE LET c == NatBytes(-(n + 1), 4) IN [i \in 1..4 |-> 255 - c[i]]
S16Bytes(n) == IF n >= 0 THEN NatBytes(n, 2)
               ELSE LET c == NatBytes(-(n + 1), 2) IN [i \in 1..2 |-> 255 - c[i]]
RECURSIVE BEInt(_)
BEInt(b) == IF b = <<>> THEN 0 ELSE BEInt(SubSeq(b, 1, Len(b) - 1)) * 256 + b[Len(b)]
\* two's complement value of 2 or 4 bytes
SInt(b) == IF b[1] < 128 THEN BEInt(b)
           ELSE -BEInt([i \in 1..Len(b) |-> 255 - b[i]]) - 1
\* a length or count: non-negative or -1 when it does not make sense
CountOf(b) == IF Len(b) = 4 /\ b[1] >= 128 THEN -1 ELSE BEInt(b)

Width(t) == CASE t \in {"u8", "s8"} -> 1 [] t \in {"u16", "s16", "x4949"} -> 2
              [] t \in {"u32", "s32", "u32le", "u32be", "ref", "time", "fourcc"} -> 4
              [] t \in {"u64", "s64", "double"} -> 8 [] t = "uuid" -> 16 [] OTHER -> 0
Numeric(t) == t \in {"u8","s8","u16","s16","x4949","u32","s32","u32le","u32be","ref","time","fourcc","u64","s64","double"}

\* bytes of a number in the file
Ord(bo, t, b) == IF t = "u32le" THEN Rev(b) ELSE IF t = "u32be" THEN b
                 ELSE IF bo = "little" THEN Rev(b) ELSE b
UuidOrd(bo, b) == IF bo = "little"
                  THEN Rev(Sub(b, 1, 4)) \o Rev(Sub(b, 5, 2)) \o Rev(Sub(b, 7, 2)) \o Sub(b, 9, 8)
                  ELSE b

\* ---- decimal rates ----------------------------------------------------
RECURSIVE Reduce(_, _)
Reduce(m, k) == IF m = 0 THEN <<0, 0>>
                ELSE IF k > 0 /\ m % 10 = 0 THEN Reduce(m \div 10, k - 1)
                ELSE IF k < 0 THEN Reduce(m * 10, k + 1) ELSE <<m, k>>
ReduceS(m, k) == IF m < 0 THEN LET r == Reduce(-m, k) IN << -r[1], r[2] >> ELSE Reduce(m, k)
Exp10Wire(v) == IF v = <<5994, 2>> THEN << 59940, -3 >> ELSE << v[1], -v[2] >>

TextBytes(bo, b) == Ord(bo, "u16", NatBytes(Len(b), 2)) \o b

MobIdBytes(bo, v) ==
  Mk(<< 65 >>) \o Mk(Ord(bo, "s32", NatBytes(12, 4))) \o Sub(v, 1, 12)
  \o Mk(<< 68 >>) \o << v[13] >> \o Mk(<< 68 >>) \o << v[14] >> \o Mk(<< 68 >>) \o << v[15] >> \o Mk(<< 68 >>) \o << v[16] >>
  \o Mk(<< 72 >>) \o Ord(bo, "u32", Sub(v, 17, 4)) \o Mk(<< 70 >>) \o Ord(bo, "u16", Sub(v, 21, 2))
  \o Mk(<< 70 >>) \o Ord(bo, "u16", Sub(v, 23, 2)) \o Mk(<< 65 >>) \o Mk(Ord(bo, "s32", NatBytes(8, 4))) \o Sub(v, 25, 8)

Scalar(bo, t, v) ==
  CASE Numeric(t)  -> Ord(bo, t, v)
    [] t = "bool"  -> << IF v THEN 1 ELSE 0 >>
    [] t = "uuid"  -> UuidOrd(bo, v)
    [] t = "str"   -> TextBytes(bo, v)
    [] t = "ustr"  -> IF v = <<>> THEN TextBytes(bo, v) ELSE TextBytes(bo, << 0, 0 >> \o v)
    [] t \in {"nstr", "pstr"} -> IF v = <<>> THEN << 255, 255 >> ELSE TextBytes(bo, v)
    [] t = "exp10" -> LET w == Exp10Wire(v) IN Ord(bo, "s32", S32Bytes(w[1])) \o Ord(bo, "s16", S16Bytes(w[2]))
    [] t = "mobid" -> MobIdBytes(bo, v)

LegacyLo(v) == Sub(v, 17, 4)
LegacyHi(v) == Sub(v, 23, 2) \o Sub(v, 21, 2)

Count(bo, t, n) == Ord(bo, t, NatBytes(n, Width(t)))

IsLarge(rec) == rec["large_bin"] \/ Len(rec["items"]) > 65535
BinVersion(large, n) == IF large \/ n > 65535 THEN 15 ELSE 14
BinCountType(large, n) == IF large \/ n > 65535 THEN "u32" ELSE "u16"

HasBit(n, k) == (n \div (2 ^ k)) % 2 = 1
RECURSIVE FlagSum(_, _)
FlagSum(fs, tr) == IF fs = <<>> THEN 0
                   ELSE (IF Head(fs)[2] \in DOMAIN tr THEN 2 ^ Head(fs)[1] ELSE 0) + FlagSum(Tail(fs), tr)
RECURSIVE EncTrack(_, _, _)
EncTrack(bo, fs, tr) == IF fs = <<>> THEN <<>>
   ELSE (IF Head(fs)[2] \in DOMAIN tr THEN Scalar(bo, Head(fs)[3], tr[Head(fs)[2]]) ELSE <<>>)
        \o EncTrack(bo, Tail(fs), tr)

CaseType(alts, k) == LET s == { a \in { alts[i] : i \in 1..Len(alts) } : a[1] = k }
                     IN  IF s = {} THEN "?" ELSE (CHOOSE a \in s : TRUE)[2]
CaseKey(it, rec, par) == IF it.on = "^value_type" THEN SInt(par["value_type"]) ELSE SInt(rec[it.on])

\* concatenation of a sequence of sequences
RECURSIVE FlatR(_, _, _)
FlatR(ss, a, b) == IF a > b THEN <<>> ELSE IF a = b THEN ss[a]
                   ELSE LET m == (a + b) \div 2 IN FlatR(ss, a, m) \o FlatR(ss, m + 1, b)
Flat(ss) == FlatR(ss, 1, Len(ss))

RECURSIVE EncItems(_, _, _, _)
RECURSIVE EncItem(_, _, _, _)
EncItem(bo, it, rec, par) ==
  CASE it.op = "lit"  -> Mk(it.b)
    [] it.op = "litt" -> Mk(Ord(bo, it.t, it.b))
    [] it.op = "skip" -> Zeros(it.k)
    [] it.op = "fld"  -> Scalar(bo, it.t, rec[it.n])
    [] it.op = "tup"  -> Flat([i \in 1..Len(it.ts) |-> Scalar(bo, it.ts[i], rec[it.n][i])])
    [] it.op = "grid" -> Flat([i \in 1..(2 * it.k) |->
                           Mk(<< 71 >>) \o Ord(bo, "s32", rec[it.n][(i + 1) \div 2][2 - (i % 2)])])
    [] it.op = "refs" -> Count(bo, it.c, Len(rec[it.n])) \o Flat([i \in 1..Len(rec[it.n]) |-> Ord(bo, "ref", rec[it.n][i])])
    [] it.op = "recs" -> Count(bo, it.c, Len(rec[it.n]))
                         \o Flat([i \in 1..Len(rec[it.n]) |-> EncItems(bo, it.items, rec[it.n][i], rec)])
    [] it.op = "data" -> Count(bo, it.c, Len(rec[it.n])) \o rec[it.n]
    [] it.op = "raw"  -> rec[it.n]
    [] it.op = "len"  -> Count(bo, it.c, Len(rec[it.n]) + it.add)
    [] it.op = "body" -> rec[it.n]
    [] it.op = "ints" -> Count(bo, it.c, 4 * Len(rec[it.n])) \o Flat([i \in 1..Len(rec[it.n]) |-> Ord(bo, "s32", rec[it.n][i])])
    [] it.op = "case" -> Scalar(bo, CaseType(it.alts, CaseKey(it, rec, par)), rec[it.n])
    [] it.op = "legacy" ->
         LET id  == IF it.n \in DOMAIN rec THEN rec[it.n] ELSE Zeros(32)
             pre == IF it.pre = 0 THEN <<>> ELSE Mk(<< it.pre >>)
         IN  pre \o Ord(bo, "u32", LegacyLo(id)) \o pre \o Ord(bo, "u32", LegacyHi(id))
    [] it.op = "tracks" ->
         LET ts == rec[it.n] IN Count(bo, "s32", Len(ts)) \o
           Flat([i \in 1..Len(ts) |-> Ord(bo, "u16", NatBytes(FlagSum(TrackFields, ts[i]), 2)) \o EncTrack(bo, TrackFields, ts[i])])
    [] it.op = "locks" ->
         LET ts == rec[it.n] IN
           Flat([i \in 1..Len(ts) |-> Mk(<< 69 >>) \o (IF "lock_number" \in DOMAIN ts[i]
                                                   THEN Ord(bo, "s16", ts[i]["lock_number"]) ELSE << 0, 0 >>)])
    [] it.op = "binver"   -> Mk(<< BinVersion(rec["large_bin"], Len(rec["items"])) >>)
    [] it.op = "binitems" -> Count(bo, BinCountType(rec["large_bin"], Len(rec["items"])), Len(rec["items"]))
         \o Flat([i \in 1..Len(rec[it.n]) |-> EncItems(bo, BinItemItems, rec[it.n][i], rec)])
    [] it.op = "sift6"    -> Flat([i \in 1..6 |-> EncItems(bo, SiftItems, rec[it.n][i], rec)])
    [] it.op = "plugin1"  -> Count(bo, "s32", Len(rec[it.n])) \o
         Flat([i \in 1..Len(rec[it.n]) |-> EncItems(bo, PluginItems, rec[it.n][i], rec)])
    [] it.op = "path9"    -> LET d == rec[it.n] IN Count(bo, "u32", Len(d)) \o
         (IF d = <<>> THEN <<>> ELSE Mk(<< 65 >>) \o Count(bo, "u32", Len(d)) \o d)
    [] it.op = "fmtdesc"  -> LET ds == rec[it.n] IN Count(bo, "s16", Len(ds)) \o
         Flat([i \in 1..Len(ds) |-> Mk(<< 69 >>) \o Ord(bo, "s16", ds[i]["vcid_free_column_id"])
               \o Mk(<< 71 >>) \o Count(bo, "s32", Len(ds[i]["format_descriptor"]))
               \o Mk(<< 76 >>) \o Count(bo, "u16", Len(ds[i]["format_descriptor"]) + 2) \o << 0, 0 >>
               \o ds[i]["format_descriptor"]])
    [] it.op = "attrs"    -> LET as == rec[it.n] IN Count(bo, "u32", Len(as)) \o
         Flat([i \in 1..Len(as) |-> Count(bo, "u32", as[i].t) \o TextBytes(bo, as[i].k) \o
               (CASE as[i].t \in {1, 3} -> Ord(bo, "u32", as[i].v)
                  [] as[i].t = 2 -> TextBytes(bo, as[i].v)
                  [] as[i].t = 4 -> Count(bo, "u32", Len(as[i].v)) \o as[i].v)])
    [] it.op = "selected" -> Ord(bo, "u16", rec[it.n])
    [] it.op = "count32"  -> Count(bo, "s32", Len(rec[it.n]))
    [] it.op = "recbody"  -> Flat([i \in 1..Len(rec[it.n]) |-> EncItems(bo, it.items, rec[it.n][i], rec)])
    [] it.op = "pixels"   -> LET p == rec[it.n] IN Count(bo, "u32", Len(p)) \o [i \in 1..Len(p) |-> p[i]["Code"][1]]
                             \o Count(bo, "u32", Len(p)) \o [i \in 1..Len(p) |-> p[i]["Size"][1]]
    [] it.op = "mpgfields" -> LET p == rec[it.n] IN Count(bo, "s16", Len(p)) \o
         (IF p = <<>> THEN <<>> ELSE Count(bo, "s16", 2 * Len(p)) \o
            Flat([i \in 1..Len(p) |-> p[i]["#0"] \o Ord(bo, "u32", p[i]["#1"])]))
EncItems(bo, items, rec, par) == Flat([i \in 1..Len(items) |-> EncItem(bo, items[i], rec, par)])

\* which optional sections a writer emits, in its canonical order
Wanted(x, rec) == \A j \in 1..Len(x.need) :
   IF x.need[j] = "#tracks" THEN Len(rec["tracks"]) > 0 ELSE x.need[j] \in DOMAIN rec
RECURSIVE Pick(_, _, _)
Pick(exts, rec, i) == IF i > Len(exts) THEN <<>>
   ELSE (IF Wanted(exts[i], rec) THEN << i >> ELSE <<>>) \o Pick(exts, rec, i + 1)

SecHead(s) == IF s.v = 256 THEN << 2 >> ELSE << 2, s.v >>
End == << 3 >>
EncExt(bo, x, rec) == Mk(<< 1, x.tag >>) \o EncItems(bo, x.items, rec, rec)
\* plan = sequence of indices into s.exts
EncSec(bo, s, rec, plan) == Mk(SecHead(s)) \o EncItems(bo, s.items, rec, rec)
                            \o Flat([i \in 1..Len(plan) |-> EncExt(bo, s.exts[plan[i]], rec)])
Encode(bo, cid, rec) ==
  LET secs == Classes[cid].secs
  IN  Flat([i \in 1..Len(secs) |-> EncSec(bo, secs[i], rec, Pick(secs[i].exts, rec, 1))]) \o Mk(End)
EncodePlan(bo, cid, rec, plans) ==
  LET secs == Classes[cid].secs
  IN  Flat([i \in 1..Len(secs) |-> EncSec(bo, secs[i], rec, plans[i])]) \o Mk(End)

(***************************************************************************)
(* Decoding.  A decoder state is [ok, p, r, why]: p is the next position,  *)
(* r the properties decoded so far.  Reading never looks beyond the bytes  *)
(* it was given; anything unexpected gives ok = FALSE and says why.        *)
(***************************************************************************)
Fail(st, w) == [ok |-> FALSE, p |-> st.p, r |-> st.r, why |-> w]
Adv(st, n) == [st EXCEPT !.p = @ + n]
Put(st, n, v) == [st EXCEPT !.r = (n :> v) @@ @]
Left(d, st) == Len(d.b) - st.p + 1

\* well-formed UTF-8 (no surrogates, no overlong forms, nothing above U+10FFFF)
Within(x, a, b) == x >= a /\ x <= b
RECURSIVE ValidUtf8(_, _)
ValidUtf8(s, i) ==
  IF i > Len(s) THEN TRUE
  ELSE LET b == s[i]
           more(k) == i + k <= Len(s) /\ \A j \in 1..k : Within(s[i + j], 128, 191)
       IN CASE b < 128 -> ValidUtf8(s, i + 1)
            [] Within(b, 194, 223) -> more(1) /\ ValidUtf8(s, i + 2)
            [] Within(b, 224, 239) -> /\ more(2) /\ (b = 224 => s[i + 1] >= 160) /\ (b = 237 => s[i + 1] < 160)
                                      /\ ValidUtf8(s, i + 3)
            [] Within(b, 240, 244) -> /\ more(3) /\ (b = 240 => s[i + 1] >= 144) /\ (b = 244 => s[i + 1] < 144)
                                      /\ ValidUtf8(s, i + 4)
            [] OTHER -> FALSE

\* decode one scalar: [ok, n (bytes used), v, why]
No(w) == [ok |-> FALSE, n |-> 0, v |-> 0, why |-> w]
Yes(n, v) == [ok |-> TRUE, n |-> n, v |-> v, why |-> ""]

RECURSIVE StripL(_)
StripL(s) == IF s # <<>> /\ Head(s) = 0 THEN StripL(Tail(s)) ELSE s
RECURSIVE StripR(_)
StripR(s) == IF s # <<>> /\ s[Len(s)] = 0 THEN StripR(SubSeq(s, 1, Len(s) - 1)) ELSE s
StripNul(s) == StripR(StripL(s))

DecMobId(d, p) ==
  LET q(o, n) == Sub(d.b, p + o, n)
      num(t, o) == Ord(d.bo, t, q(o, Width(t)))  \* Ord is its own inverse
  IN IF Len(d.b) - p + 1 < 49 THEN No("short mob id")
     ELSE IF q(0, 1) # << 65 >> \/ num("s32", 1) # << 0, 0, 0, 12 >> THEN No("mob id label")
     ELSE IF q(17, 1) # << 68 >> \/ q(19, 1) # << 68 >> \/ q(21, 1) # << 68 >> \/ q(23, 1) # << 68 >> THEN No("mob id octet mark")
     ELSE IF q(25, 1) # << 72 >> \/ q(30, 1) # << 70 >> \/ q(33, 1) # << 70 >> \/ q(36, 1) # << 65 >> THEN No("mob id material mark")
     ELSE IF num("s32", 37) # << 0, 0, 0, 8 >> THEN No("mob id material length")
     ELSE Yes(49, q(5, 12) \o q(18, 1) \o q(20, 1) \o q(22, 1) \o q(24, 1)
                  \o num("u32", 26) \o num("u16", 31) \o num("u16", 34) \o q(41, 8))

DecScalar(d, p, t) ==
  LET left == Len(d.b) - p + 1 IN
  CASE Numeric(t) ->
         IF left < Width(t) THEN No("short " \o t)
         ELSE LET v == Ord(d.bo, t, Sub(d.b, p, Width(t))) IN
              IF t = "ref" /\ (v[1] # 0 \/ BEInt(v) > d.nobj) THEN No("reference outside the file")
              ELSE IF t = "x4949" /\ v # << 73, 73 >> THEN No("byte order field")
              ELSE Yes(Width(t), v)
    [] t = "bool" -> IF left < 1 THEN No("short bool") ELSE Yes(1, d.b[p] = 1)
    [] t = "uuid" -> IF left < 16 THEN No("short uuid") ELSE Yes(16, UuidOrd(d.bo, Sub(d.b, p, 16)))
    [] t = "ustr" /\ left >= 2 /\ LET n == BEInt(Ord(d.bo, "u16", Sub(d.b, p, 2)))
                                  IN n < 65535 /\ left >= 2 + n /\ ~ValidUtf8(Sub(d.b, p + 2, n), 1) -> No("not utf-8")
    [] t \in {"str", "ustr", "nstr", "pstr"} ->
         IF left < 2 THEN No("short text size")
         ELSE LET n == BEInt(Ord(d.bo, "u16", Sub(d.b, p, 2))) IN
              IF n = 65535 THEN Yes(2, <<>>)
              ELSE IF left < 2 + n THEN No("short text")
              ELSE Yes(2 + n, StripNul(Sub(d.b, p + 2, n)))
    [] t = "exp10" ->
         IF left < 6 THEN No("short rate")
         ELSE LET m == Ord(d.bo, "s32", Sub(d.b, p, 4))
                  k == -SInt(Ord(d.bo, "s16", Sub(d.b, p + 4, 2))) IN
              \* exponents no writer produces are kept as they are: <<mantissa, exponent, 0>>
              IF m = << 128, 0, 0, 0 >> \/ k < 0 \/ k > 9 THEN Yes(6, << 0, k, 0 >>)
              ELSE Yes(6, ReduceS(SInt(m), k))
    [] t = "mobid" -> DecMobId(d, p)

\* read a scalar into property n
Get(d, st, n, t) == LET x == DecScalar(d, st.p, t) IN
   IF x.ok THEN Put(Adv(st, x.n), n, x.v) ELSE Fail(st, x.why)
\* read a count into property n, as a natural number
GetCount(d, st, n, t) == LET x == DecScalar(d, st.p, t) IN
   IF ~x.ok THEN Fail(st, x.why)
   ELSE IF CountOf(x.v) < 0 \/ CountOf(x.v) > Len(d.b) * 2 THEN Fail(st, "count beyond the object")
   ELSE Put(Adv(st, x.n), n, CountOf(x.v))
Bytes(d, st, n, k) == IF Left(d, st) < k THEN Fail(st, "short bytes")
                      ELSE Put(Adv(st, k), n, Sub(d.b, st.p, k))
Expect(d, st, b) == IF Left(d, st) < Len(b) THEN Fail(st, "cut short")
                    ELSE IF Sub(d.b, st.p, Len(b)) # b THEN Fail(st, "wrong marker")
                    ELSE Adv(st, Len(b))
Drop(st, n) == [st EXCEPT !.r = [x \in (DOMAIN @) \ {n} |-> @[x]]]

RECURSIVE DecItems(_, _, _, _)
RECURSIVE DecItem(_, _, _, _)
RECURSIVE DecTup(_, _, _, _, _)
RECURSIVE DecRecs(_, _, _, _, _, _)
RECURSIVE DecGrid(_, _, _, _, _)
RECURSIVE DecFlags(_, _, _, _)
RECURSIVE DecTracks(_, _, _, _)
RECURSIVE DecLocks(_, _, _)
RECURSIVE DecAttrs(_, _, _, _)
RECURSIVE DecFmt(_, _, _, _)

\* list of scalars of types ts[i]
DecTup(d, st, n, ts, acc) == IF ~st.ok THEN st
   ELSE IF Len(acc) = Len(ts) THEN Put(st, n, acc)
   ELSE LET x == DecScalar(d, st.p, ts[Len(acc) + 1]) IN
        IF x.ok THEN DecTup(d, Adv(st, x.n), n, ts, Append(acc, x.v)) ELSE Fail(st, x.why)
DecRecs(d, st, n, items, k, acc) == IF ~st.ok THEN st
   ELSE IF Len(acc) = k THEN Put(st, n, acc)
   ELSE LET s == DecItems(d, [ok |-> TRUE, p |-> st.p, r |-> << >>, why |-> ""], items, st.r) IN
        IF s.ok THEN DecRecs(d, [st EXCEPT !.p = s.p], n, items, k, Append(acc, s.r))
        ELSE Fail(st, s.why)
DecGrid(d, st, n, k, acc) == IF ~st.ok THEN st
   ELSE IF Len(acc) = 2 * k THEN Put(st, n, [i \in 1..k |-> << acc[2 * i - 1], acc[2 * i] >>])
   ELSE LET s == Expect(d, st, << 71 >>) IN
        IF ~s.ok THEN s
        ELSE LET x == DecScalar(d, s.p, "s32") IN
             IF x.ok THEN DecGrid(d, Adv(s, x.n), n, k, Append(acc, x.v)) ELSE Fail(s, x.why)
DecFlags(d, st, fs, fl) == IF ~st.ok \/ fs = <<>> THEN st
   ELSE DecFlags(d, IF HasBit(fl, Head(fs)[1]) THEN Get(d, st, Head(fs)[2], Head(fs)[3]) ELSE st, Tail(fs), fl)
DecTracks(d, st, k, acc) == IF ~st.ok THEN st
   ELSE IF Len(acc) = k THEN Put(st, "tracks", acc)
   ELSE LET x == DecScalar(d, st.p, "u16") IN
        IF ~x.ok THEN Fail(st, x.why)
        ELSE IF BEInt(x.v) >= 1024 THEN Fail(st, "unknown track flags")
        ELSE LET s == DecFlags(d, [ok |-> TRUE, p |-> st.p + 2, r |-> << >>, why |-> ""], TrackFields, BEInt(x.v)) IN
             IF s.ok THEN DecTracks(d, [st EXCEPT !.p = s.p], k, Append(acc, s.r)) ELSE Fail(st, s.why)
DecLocks(d, st, i) == IF ~st.ok \/ i > Len(st.r["tracks"]) THEN st
   ELSE LET s == Expect(d, st, << 69 >>) IN IF ~s.ok THEN s
        ELSE LET x == DecScalar(d, s.p, "s16") IN
             IF ~x.ok THEN Fail(s, x.why)
             ELSE DecLocks(d, [Adv(s, x.n) EXCEPT !.r["tracks"][i] = ("lock_number" :> x.v) @@ @], i + 1)
\* the last of several entries with one key wins and keeps the first one's place
PutAttr(acc, e) == LET same == { j \in 1..Len(acc) : acc[j].k = e.k } IN
   IF same = {} THEN Append(acc, e) ELSE [acc EXCEPT ![CHOOSE j \in same : TRUE] = e]
DecAttrs(d, st, k, acc) == IF ~st.ok THEN st
   ELSE IF k = 0 THEN Put(st, "items", acc)
   ELSE LET s1 == Get(d, Get(d, st, "#t", "u32"), "#k", "str") IN
        IF ~s1.ok THEN s1
        ELSE LET ty == IF s1.r["#t"][1] # 0 THEN 0 ELSE BEInt(s1.r["#t"])
                 s2 == CASE ty = 1 -> Get(d, s1, "#v", "s32")
                         [] ty = 2 -> Get(d, s1, "#v", "str")
                         [] ty = 3 -> Get(d, s1, "#v", "ref")
                         [] ty = 4 -> LET c == GetCount(d, s1, "#n", "u32") IN
                                      IF c.ok THEN Bytes(d, c, "#v", c.r["#n"]) ELSE c
                         [] OTHER -> Fail(s1, "unknown attribute type")
             IN IF ~s2.ok THEN s2
                ELSE DecAttrs(d, [s2 EXCEPT !.r = st.r], k - 1,
                              PutAttr(acc, [k |-> s1.r["#k"], t |-> ty, v |-> s2.r["#v"]]))
DecFmt(d, st, k, acc) == IF ~st.ok THEN st
   ELSE IF k = 0 THEN Put(st, "format_descriptors", acc)
   ELSE LET s1 == Expect(d, st, << 69 >>)
            s2 == IF s1.ok THEN Get(d, s1, "#c", "s16") ELSE s1
            s3 == IF s2.ok THEN Expect(d, s2, << 71 >>) ELSE s2
            s4 == IF s3.ok THEN GetCount(d, s3, "#n", "s32") ELSE s3
            s5 == IF s4.ok THEN Expect(d, s4, << 76 >>) ELSE s4
            s6 == IF s5.ok THEN Bytes(d, s5, "#z", 4) ELSE s5
            s7 == IF s6.ok THEN Bytes(d, s6, "#d", s6.r["#n"]) ELSE s6
        IN IF ~s7.ok THEN s7
           ELSE IF ~ValidUtf8(s7.r["#d"], 1) THEN Fail(s7, "not utf-8")
           ELSE DecFmt(d, [s7 EXCEPT !.r = st.r], k - 1,
                  Append(acc, ("vcid_free_column_id" :> s7.r["#c"]) @@ ("format_descriptor" :> s7.r["#d"])))

\* a count, then the rest given the count
WithCount(d, st, t, K(_, _)) == LET c == GetCount(d, st, "#n", t) IN
   IF ~c.ok THEN c ELSE K(Drop(c, "#n"), c.r["#n"])

DecItem(d, st, it, par) ==
  CASE it.op = "lit"  -> Expect(d, st, it.b)
    [] it.op = "litt" -> Expect(d, st, Ord(d.bo, it.t, it.b))
    [] it.op = "skip" -> IF Left(d, st) < it.k THEN Fail(st, "short filler") ELSE Adv(st, it.k)
    [] it.op = "fld"  -> Get(d, st, it.n, it.t)
    [] it.op = "tup"  -> DecTup(d, st, it.n, it.ts, <<>>)
    [] it.op = "grid" -> DecGrid(d, st, it.n, it.k, <<>>)
    [] it.op = "refs" -> WithCount(d, st, it.c, LAMBDA s, k : DecTup(d, s, it.n, [i \in 1..k |-> "ref"], <<>>))
    [] it.op = "recs" -> WithCount(d, st, it.c, LAMBDA s, k : DecRecs(d, s, it.n, it.items, k, <<>>))
    [] it.op = "data" -> WithCount(d, st, it.c, LAMBDA s, k : Bytes(d, s, it.n, k))
    [] it.op = "raw"  -> Bytes(d, st, it.n, it.k)
    [] it.op = "len"  -> LET c == GetCount(d, st, "#c", it.c)
                             k == c.r["#c"] - it.add
                             old == IF "#len" \in DOMAIN st.r THEN st.r["#len"] ELSE k
                         IN IF ~c.ok THEN c ELSE IF k < 0 \/ k # old THEN Fail(st, "lengths disagree")
                            ELSE Put(Drop(c, "#c"), "#len", k)
    [] it.op = "body" -> LET s == Bytes(d, st, it.n, st.r["#len"]) IN IF s.ok THEN Drop(s, "#len") ELSE s
    [] it.op = "ints" -> WithCount(d, st, it.c, LAMBDA s, k : IF k % 4 # 0 THEN Fail(s, "not a number of s32") ELSE DecTup(d, s, it.n, [i \in 1..(k \div 4) |-> "s32"], <<>>))
    [] it.op = "case" -> LET ty == CaseType(it.alts, CaseKey(it, st.r, par)) IN
                         IF ty = "?" THEN Fail(st, "unknown value type") ELSE Get(d, st, it.n, ty)
    [] it.op = "legacy" -> LET k == IF it.pre = 0 THEN 8 ELSE 10 IN
                           IF Left(d, st) < k THEN Fail(st, "short legacy id")
                           ELSE IF it.pre # 0 /\ (d.b[st.p] # it.pre \/ d.b[st.p + 5] # it.pre) THEN Fail(st, "wrong marker")
                           ELSE Adv(st, k)
    [] it.op = "tracks" -> WithCount(d, st, "s32", LAMBDA s, k : DecTracks(d, s, k, <<>>))
    [] it.op = "locks"  -> DecLocks(d, st, 1)
    [] it.op = "binver" -> IF Left(d, st) < 1 THEN Fail(st, "cut short")
                           ELSE IF d.b[st.p] \notin {14, 15} THEN Fail(st, "bin version")
                           ELSE Put(Adv(st, 1), "large_bin", d.b[st.p] = 15)
    [] it.op = "binitems" -> WithCount(d, st, IF st.r["large_bin"] THEN "u32" ELSE "u16",
                               LAMBDA s, k : DecRecs(d, s, it.n, BinItemItems, k, <<>>))
    [] it.op = "sift6"    -> DecRecs(d, st, it.n, SiftItems, 6, <<>>)
    [] it.op = "plugin1"  -> WithCount(d, st, "s32", LAMBDA s, k : DecRecs(d, s, it.n, PluginItems, k, <<>>))
    [] it.op = "path9"    -> WithCount(d, st, "u32", LAMBDA s, k :
                               IF k = 0 THEN Put(s, it.n, <<>>)
                               ELSE LET e == Expect(d, s, << 65 >>) IN IF ~e.ok THEN e
                                    ELSE WithCount(d, e, "u32", LAMBDA s2, k2 :
                                           IF k2 # k THEN Fail(s2, "lengths disagree") ELSE Bytes(d, s2, it.n, k)))
    [] it.op = "fmtdesc"  -> WithCount(d, st, "s16", LAMBDA s, k : DecFmt(d, s, k, <<>>))
    [] it.op = "attrs"    -> WithCount(d, st, "u32", LAMBDA s, k : DecAttrs(d, s, k, <<>>))
    [] it.op = "selected" -> LET s == Get(d, st, it.n, "u16") IN IF ~s.ok THEN s
                             ELSE IF BEInt(s.r[it.n]) >= Len(s.r["tracks"]) THEN Fail(st, "selected track does not exist") ELSE s
    [] it.op = "count32"  -> WithCount(d, st, "s32", LAMBDA s, k : Put(s, "#len", k))
    [] it.op = "recbody"  -> DecRecs(d, Drop(st, "#len"), it.n, it.items, st.r["#len"], <<>>)
    [] it.op = "pixels"   -> WithCount(d, st, "u32", LAMBDA s, k :
                               LET a == Bytes(d, s, "#a", k) IN IF ~a.ok THEN a
                               ELSE WithCount(d, a, "u32", LAMBDA s2, k2 :
                                  IF k2 # k THEN Fail(s2, "lengths disagree")
                                  ELSE LET z == Bytes(d, s2, "#b", k) IN IF ~z.ok THEN z
                                       ELSE Put(Drop(Drop(z, "#a"), "#b"), it.n,
                                            [i \in 1..k |-> ("Code" :> << z.r["#a"][i] >>) @@ ("Size" :> << z.r["#b"][i] >>)])))
    [] it.op = "mpgfields" -> WithCount(d, st, "s16", LAMBDA s, k :
                               IF k = 0 THEN Put(s, it.n, <<>>)
                               ELSE IF Left(d, s) < 2 THEN Fail(s, "cut short")
                               ELSE DecRecs(d, Adv(s, 2), it.n, << F("#0", "u8"), F("#1", "u32") >>, k, <<>>))

DecItems(d, st, items, par) ==
  IF ~st.ok \/ items = <<>> THEN st
  ELSE DecItems(d, DecItem(d, st, Head(items), par), Tail(items), par)

RECURSIVE DecExts(_, _, _)
DecExts(d, st, exts) ==
  IF ~st.ok THEN st
  ELSE IF Left(d, st) < 1 THEN Fail(st, "cut short")
  ELSE IF d.b[st.p] # 1 THEN st
  ELSE IF Left(d, st) < 2 THEN Fail(st, "cut short")
  ELSE LET xs == { i \in 1..Len(exts) : exts[i].tag = d.b[st.p + 1] } IN
       IF xs = {} THEN Fail(st, "unknown optional tag")
       ELSE DecExts(d, DecItems(d, Adv(st, 2), exts[CHOOSE i \in xs : TRUE].items, st.r), exts)

RECURSIVE DecSecs(_, _, _)
DecSecs(d, st, secs) ==
  IF ~st.ok \/ secs = <<>> THEN st
  ELSE LET s1 == Expect(d, st, SecHead(Head(secs)))
           s2 == IF s1.ok THEN DecItems(d, s1, Head(secs).items, s1.r) ELSE s1
           s3 == IF s2.ok /\ Head(secs).exts # <<>> THEN DecExts(d, s2, Head(secs).exts) ELSE s2
       IN DecSecs(d, s3, Tail(secs))

\* Decode the bytes b of an object of class cid in a file of nobj objects.
Decode(bo, cid, b, nobj) ==
  LET d  == [bo |-> bo, b |-> b, nobj |-> nobj]
      s  == DecSecs(d, [ok |-> TRUE, p |-> 1, r |-> << >>, why |-> ""], Classes[cid].secs)
      s2 == IF s.ok THEN Expect(d, s, End) ELSE s
  IN  IF s2.ok /\ Left(d, s2) > 0 THEN Fail(s2, "surplus bytes") ELSE s2
=============================================================================
