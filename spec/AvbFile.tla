------------------------------ MODULE AvbFile ------------------------------
(***************************************************************************)
(* The container: file header, then one chunk (class, size, bytes) per     *)
(* object; chunk i is object i, the header names the root.                 *)
(* The header is described in the item language of AvbSchema and read and  *)
(* written by the interpreter of AvbWire.                                  *)
(***************************************************************************)
EXTENDS AvbWire

Code == [A |-> 65, B |-> 66, C |-> 67, D |-> 68, E |-> 69, F |-> 70, G |-> 71, H |-> 72, I |-> 73, J |-> 74,
         K |-> 75, L |-> 76, M |-> 77, N |-> 78, O |-> 79, P |-> 80, Q |-> 81, R |-> 82, S |-> 83, T |-> 84,
         U |-> 85, V |-> 86, W |-> 87, X |-> 88, Y |-> 89, Z |-> 90, a |-> 97, b |-> 98, c |-> 99, d |-> 100,
         e |-> 101, f |-> 102, g |-> 103, h |-> 104, i |-> 105, j |-> 106, k |-> 107, l |-> 108, m |-> 109, n
         |-> 110, o |-> 111, p |-> 112, q |-> 113, r |-> 114, s |-> 115, t |-> 116, u |-> 117, v |-> 118, w
         |-> 119, x |-> 120, y |-> 121, z |-> 122]
Ascii(str) == [i \in 1..Len(str) |-> Code[SubSeq(str, i, i)]]
ClassBytes == TLCEval([c \in ClassIds |-> TLCEval(Ascii(c))])
ClassOfBytes == LET t == TLCEval([c \in ClassIds |-> TLCEval(Ascii(c))])
                IN  TLCEval([b \in { t[c] : c \in ClassIds } |-> CHOOSE c \in ClassIds : t[c] = b])

Label == TLCEval(Ascii("AObjDoc"))
HeaderItems == TLCEval(<<
  Lit(Ascii("Domain")), LitT("fourcc", Ascii("OBJD")), F("label", "str"), Lit(<< 4 >>), F("savetext", "str"),
  F("n", "u32"), F("root", "u32"), F("order", "u32"), F("when", "time"), Skip(4),
  LitT("fourcc", Ascii("ATob")), LitT("fourcc", Ascii("ATve")), F("creator", "str"), Skip(16) >>)
Magic(bo) == IF bo = "little" THEN << 6, 0 >> ELSE << 0, 6 >>
OrderFlag(bo) == IF bo = "little" THEN << 73, 73, 73, 73 >> ELSE << 77, 77, 77, 77 >>
\* Padded creator: 30 characters, blanks on the right
Padded(c) == [i \in 1..30 |-> IF i <= Len(c) THEN c[i] ELSE 32]

\* header: [n, root (4 bytes each), when (4 bytes), savetext, creator]
EncHeader(bo, h) ==
  Magic(bo) \o EncItems(bo, HeaderItems,
     [label |-> Label, savetext |-> h.savetext, n |-> NatBytes(h.n, 4), root |-> NatBytes(h.root, 4),
      order |-> OrderFlag(bo), when |-> h.when, creator |-> Padded(h.creator)], << >>)
EncChunk(bo, cid, b) == Ord(bo, "fourcc", ClassBytes[cid]) \o Count(bo, "u32", Len(b)) \o b

BadFile(w) == [ok |-> FALSE, why |-> w]
\* the chunks from position p on; chunk = [c (class bytes), at, size, full]
RECURSIVE Walk(_, _, _, _)
Walk(d, p, k, acc) ==
  IF k = 0 THEN [ok |-> TRUE, chunks |-> acc, p |-> p]
  ELSE IF Len(d.b) - p + 1 < 8 THEN [ok |-> FALSE, chunks |-> acc, p |-> p]
  ELSE LET z    == CountOf(Ord(d.bo, "u32", Sub(d.b, p + 4, 4)))
           rest == Len(d.b) - p - 7
           full == z >= 0 /\ z <= rest
           c    == [c |-> Ord(d.bo, "fourcc", Sub(d.b, p, 4)), at |-> p + 8, size |-> IF full THEN z ELSE 0, full |-> full]
       IN Walk(d, IF full THEN p + 8 + z ELSE Len(d.b) + 1, k - 1, Append(acc, c))

\* [ok, why] and, when ok: bo, h (header values), n, root, chunks, end
ParseFile(b) ==
  IF Len(b) < 2 \/ Sub(b, 1, 2) \notin { Magic("little"), Magic("big") } THEN BadFile("magic")
  ELSE LET bo == IF Sub(b, 1, 2) = Magic("little") THEN "little" ELSE "big"
           d  == [bo |-> bo, b |-> b, nobj |-> 0]
           s  == DecItems(d, [ok |-> TRUE, p |-> 3, r |-> << >>, why |-> ""], HeaderItems, << >>)
       IN IF ~s.ok THEN BadFile("header: " \o s.why)
          ELSE IF s.r["label"] # Label THEN BadFile("label")
          ELSE IF s.r["order"] \notin { OrderFlag("little"), OrderFlag("big") } THEN BadFile("order flag")
          ELSE LET n == CountOf(s.r["n"])
                   root == CountOf(s.r["root"])
               IN IF n < 0 \/ n > Len(b) THEN BadFile("more objects than present")
                  ELSE IF root < 1 \/ root > n THEN BadFile("root outside the file")
                  ELSE LET w == Walk(d, s.p, n, <<>>) IN
                       IF ~w.ok THEN BadFile("more objects than present")
                       ELSE [ok |-> TRUE, why |-> "", bo |-> bo, h |-> s.r, n |-> n, root |-> root,
                             chunks |-> w.chunks, end |-> w.p - 1]

\* what reading object j of a parsed file gives: [ok, why, cid, r]
ReadChunk(f, b, j) ==
  LET c == f.chunks[j] IN
  IF ~c.full THEN [ok |-> FALSE, why |-> "cut short", cid |-> "", r |-> << >>]
  ELSE IF c.c \notin DOMAIN ClassOfBytes THEN [ok |-> FALSE, why |-> "unknown class", cid |-> "", r |-> << >>]
  ELSE LET cid == ClassOfBytes[c.c]
           x == Decode(f.bo, cid, Sub(b, c.at, c.size), f.n)
       IN [ok |-> x.ok, why |-> x.why, cid |-> cid, r |-> x.r]
=============================================================================
