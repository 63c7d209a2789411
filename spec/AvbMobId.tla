----------------------------- MODULE AvbMobId -----------------------------
(***************************************************************************)
(* A mob id is one value of 32 bytes; everything else shown of it is a     *)
(* view of those bytes, and can be set.  Numbers of more than one byte are *)
(* given as their bytes, most significant first; text as its hexadecimal   *)
(* digits' bytes (Urn) - the punctuation is fixed.                         *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

Zeros(n) == [j \in 1..n |-> 0]
Cut(b, i, n) == SubSeq(b, i, i + n - 1)
Flip(s) == TLCEval([j \in 1..Len(s) |-> s[Len(s) + 1 - j]])
Put(b, i, s) == TLCEval([j \in 1..Len(b) |-> IF j >= i /\ j < i + Len(s) THEN s[j - i + 1] ELSE b[j]])

\* where each field lies (from 1), its size, and whether it is stored least significant byte first
Field == [SMPTELabel |-> << 1, 12, FALSE >>, length |-> << 13, 1, FALSE >>, instanceHigh |-> << 14, 1, FALSE >>,
          instanceMid |-> << 15, 1, FALSE >>, instanceLow |-> << 16, 1, FALSE >>, Data1 |-> << 17, 4, TRUE >>,
          Data2 |-> << 21, 2, TRUE >>, Data3 |-> << 23, 2, TRUE >>, Data4 |-> << 25, 8, FALSE >>,
          int |-> << 1, 32, FALSE >>, bytes_le |-> << 1, 32, FALSE >>]
Get(b, n) == LET f == Field[n] s == Cut(b, f[1], f[2]) IN IF f[3] THEN Flip(s) ELSE s
Set(b, n, v) == LET f == Field[n] IN Put(b, f[1], IF f[3] THEN Flip(v) ELSE v)

\* the material number as a UUID: its sixteen bytes in the order they are written
Material(b) == Get(b, "Data1") \o Get(b, "Data2") \o Get(b, "Data3") \o Get(b, "Data4")
SetMaterial(b, v) == Set(Set(Set(Set(b, "Data1", Cut(v, 1, 4)), "Data2", Cut(v, 5, 2)), "Data3", Cut(v, 7, 2)), "Data4", Cut(v, 9, 8))

\* the text: as stored in most significant byte order, but with the halves of the material number exchanged when it is
\* of the old form, an object identifier in the second half
Old == << 6, 14, 43, 52, 127, 127 >>
Front(b) == Cut(b, 1, 16)
Halves(m) == Cut(m, 9, 8) \o Cut(m, 1, 8)
Urn(b) == LET m == Material(b) IN Front(b) \o (IF b[12] = 0 /\ Cut(m, 9, 6) = Old THEN Halves(m) ELSE m)
FromUrn(u) == LET m == Cut(u, 17, 16)
                  b == Cut(u, 1, 16) \o Zeros(16)
              IN SetMaterial(b, IF u[12] = 0 /\ Cut(m, 1, 6) = Old THEN Halves(m) ELSE m)
\* the text of one sort of id cannot be told from that of another: material that begins like the old form without being it
Ambiguous(b) == LET m == Material(b) IN b[12] = 0 /\ Cut(m, 1, 6) = Old /\ Cut(m, 9, 6) # Old

RECURSIVE Less(_, _)
Less(x, y) == IF x = <<>> THEN FALSE ELSE IF x[1] # y[1] THEN x[1] < y[1] ELSE Less(Tail(x), Tail(y))

\* label of generated ids, and the length of a basic id
NewLabel == << 6, 10, 43, 52, 1, 1, 1, 5, 1, 1, 15, 32 >>
Generated(b) == Get(b, "SMPTELabel") = NewLabel /\ Cut(b, 13, 4) = << 19, 0, 0, 0 >>
=============================================================================
