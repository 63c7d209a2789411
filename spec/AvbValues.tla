----------------------------- MODULE AvbValues -----------------------------
(***************************************************************************)
(* Which values a field can hold, and the wire value of those it can.      *)
(* A value a program may assign ("abstract value"):                        *)
(*   [k |-> "int",  neg |-> BOOLEAN, mag |-> bytes]   any integer          *)
(*   [k |-> "text", cp |-> code points]               any text             *)
(*   [k |-> "run",  cp |-> code point, n |-> Nat]     n times one letter   *)
(*   [k |-> "bytes", b |-> bytes]                     any byte string      *)
(*   [k |-> "none"]  [k |-> "junk"]                   None, a wrong type   *)
(* Fits(t, x): a field of type t can hold x; Wire(t, x): its wire value.   *)
(***************************************************************************)
EXTENDS AvbWire

MacRoman == <<
    196, 197, 199, 201, 209, 214, 220, 225, 224, 226, 228, 227, 229, 231, 233, 232, 234, 235, 237, 236,
    238, 239, 241, 243, 242, 244, 246, 245, 250, 249, 251, 252, 8224, 176, 162, 163, 167, 8226, 182,
    223, 174, 169, 8482, 180, 168, 8800, 198, 216, 8734, 177, 8804, 8805, 165, 181, 8706, 8721, 8719,
    960, 8747, 170, 186, 937, 230, 248, 191, 161, 172, 8730, 402, 8776, 8710, 171, 187, 8230, 160, 192,
    195, 213, 338, 339, 8211, 8212, 8220, 8221, 8216, 8217, 247, 9674, 255, 376, 8260, 8364, 8249, 8250,
    64257, 64258, 8225, 183, 8218, 8222, 8240, 194, 202, 193, 203, 200, 205, 206, 207, 204, 211, 212,
    63743, 210, 218, 219, 217, 305, 710, 732, 175, 728, 729, 730, 184, 733, 731, 711 >>
MacCode(c) == IF c < 128 THEN c
              ELSE LET s == { j \in 1..128 : MacRoman[j] = c } IN IF s = {} THEN -1 ELSE 127 + CHOOSE j \in s : TRUE

RECURSIVE StripZero(_)
StripZero(m) == IF m # <<>> /\ Head(m) = 0 THEN StripZero(Tail(m)) ELSE m
PadTo(m, w) == Zeros(w - Len(m)) \o m
\* two's complement of a magnitude that fits
RECURSIVE Negate(_)
Negate(m) == IF m = <<>> THEN <<>>
             ELSE LET rest == SubSeq(m, 1, Len(m) - 1)
                      low  == m[Len(m)]
                  IN IF low = 0 THEN Append(Negate(rest), 0)
                     ELSE Append([j \in 1..Len(rest) |-> 255 - rest[j]], 256 - low)
Signed(t) == t \in {"s8", "s16", "s32", "s64"}
IntType(t) == t \in {"u8","s8","u16","s16","u32","s32","u64","s64","x4949"}
IntFits(t, x) ==
  LET m == StripZero(x.mag)
      w == Width(t)
      neg == x.neg /\ m # <<>>
  IN IF t = "x4949" THEN ~neg /\ m = << 73, 73 >>
     ELSE IF ~Signed(t) THEN ~neg /\ Len(m) <= w
     ELSE Len(m) < w \/ (Len(m) = w /\ (m[1] < 128 \/ (neg /\ m[1] = 128 /\ \A j \in 2..w : m[j] = 0)))
IntWire(t, x) == LET m == PadTo(StripZero(x.mag), Width(t)) IN IF x.neg THEN Negate(m) ELSE m

Utf8Bytes(c) == CASE c < 128 -> << c >>
                  [] c < 2048 -> << 192 + c \div 64, 128 + (c % 64) >>
                  [] c < 65536 -> << 224 + c \div 4096, 128 + ((c \div 64) % 64), 128 + (c % 64) >>
                  [] OTHER -> << 240 + c \div 262144, 128 + ((c \div 4096) % 64), 128 + ((c \div 64) % 64), 128 + (c % 64) >>
Surrogate(c) == Within(c, 55296, 57343)
TextType(t) == t \in {"str", "nstr", "pstr", "ustr"}
TextWire(t, x) == IF x.k = "none" THEN <<>>
                  ELSE IF t = "ustr" THEN Flat([j \in 1..Len(x.cp) |-> Utf8Bytes(x.cp[j])])
                  ELSE [j \in 1..Len(x.cp) |-> MacCode(x.cp[j])]
TextFits(t, x) ==
  \/ x.k = "none"
  \/ /\ x.k = "run"
     /\ IF t = "ustr" THEN ~Surrogate(x.cp) /\ x.n * Len(Utf8Bytes(x.cp)) + 2 < 65535
        ELSE MacCode(x.cp) >= 0 /\ x.n < 65535
  \/ /\ x.k = "text"
     /\ \A j \in 1..Len(x.cp) : IF t = "ustr" THEN ~Surrogate(x.cp[j]) ELSE MacCode(x.cp[j]) >= 0
     \* a text that begins or ends with NUL would be read back without it
     /\ x.cp # <<>> => x.cp[1] # 0 /\ x.cp[Len(x.cp)] # 0
     /\ Len(TextWire(t, x)) + (IF t = "ustr" THEN 2 ELSE 0) < 65535

Fits(t, x) == CASE IntType(t) -> x.k = "int" /\ IntFits(t, x)
                [] TextType(t) -> TextFits(t, x)
                [] t = "fourcc" -> x.k = "bytes" /\ Len(x.b) = 4
                [] t = "ref" -> x.k = "none"
                [] OTHER -> FALSE
Wire(t, x) == CASE IntType(t) -> IntWire(t, x)
                [] TextType(t) -> TextWire(t, x)
                [] t = "fourcc" -> x.b
                [] t = "ref" -> << 0, 0, 0, 0 >>

\* the largest count a count field of type t holds
CountFits(t, n) == CASE t = "u8" -> n <= 255 [] t = "s16" -> n <= 32767 [] t = "u16" -> n <= 65535 [] OTHER -> TRUE
\* byte strings: t is the type of the size field, or <<"exactly", n>>
BlobFits(t, n) == IF t[1] = "exactly" THEN n = t[2] ELSE CountFits(t[2], n + t[3])

\* ---- completeness of an object -----------------------------------------
ItemNames(items) == { items[j].n : j \in { i \in 1..Len(items) : items[i].op \notin {"lit", "litt", "skip", "legacy"} } }
Required(cid) == UNION { ItemNames(Classes[cid].secs[s].items) : s \in 1..Len(Classes[cid].secs) }
Groups(cid) == UNION { { Classes[cid].secs[s].exts[x].need : x \in 1..Len(Classes[cid].secs[s].exts) } : s \in 1..Len(Classes[cid].secs) }
\* optional sections whose old-style copy of the mob id stands in the fixed part
NeedsMobId(cid) == \E s \in 1..Len(Classes[cid].secs) : \E j \in 1..Len(Classes[cid].secs[s].items) :
                      Classes[cid].secs[s].items[j].op = "legacy"
Complete(cid, have) ==
  /\ Required(cid) \subseteq have
  /\ NeedsMobId(cid) => "mob_id" \in have
  /\ \A g \in Groups(cid) : LET ns == { g[j] : j \in 1..Len(g) } IN
       ns = {"#tracks"} \/ ns \subseteq have \/ ns \intersect have = {}

\* replace the value at a path of property names and (0-based) positions
RECURSIVE SetPath(_, _, _)
SetPath(r, path, v) == IF path = <<>> THEN v
  ELSE IF Head(path)[1] = "i" THEN [r EXCEPT ![Head(path)[2] + 1] = SetPath(@, Tail(path), v)]
  ELSE [r EXCEPT ![Head(path)[2]] = SetPath(@, Tail(path), v)]
=============================================================================
