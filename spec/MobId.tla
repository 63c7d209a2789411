------------------------------- MODULE MobId ------------------------------
(***************************************************************************)
(* The text of a mob id and back, over every combination of the bytes the  *)
(* form of the text depends on.                                            *)
(***************************************************************************)
EXTENDS AvbMobId
VARIABLES last, one, two
Base == [j \in 1..32 |-> (7 * j) % 256]
Pat(s) == [j \in 1..6 |-> IF s[j] = 1 THEN Old[j] ELSE 90 + j]
Make == LET b == [Base EXCEPT ![12] = last]
          m == Material(b)
      IN SetMaterial(b, Pat(one) \o Cut(m, 7, 2) \o Pat(two) \o Cut(m, 15, 2))
Bits == [1..6 -> {0, 1}]
Init == last \in {0, 1} /\ one \in Bits /\ two \in Bits
Next == UNCHANGED << last, one, two >>
Back(x) == FromUrn(TLCEval(Urn(x))) = x <=> ~Ambiguous(x)
Fields(x) == \A n \in DOMAIN Field : Set(Zeros(32), n, Get(x, n)) = [j \in 1..32 |-> IF j >= Field[n][1] /\ j < Field[n][1] + Field[n][2] THEN x[j] ELSE 0]
Whole(x) == SetMaterial(Set(Set(Set(Set(Set(Zeros(32), "SMPTELabel", Get(x, "SMPTELabel")), "length", Get(x, "length")), "instanceHigh", Get(x, "instanceHigh")),
            "instanceMid", Get(x, "instanceMid")), "instanceLow", Get(x, "instanceLow")), Material(x)) = x
Right == LET x == TLCEval(Make) IN Back(x) /\ Fields(x) /\ Whole(x)
=============================================================================
