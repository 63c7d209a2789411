----------------------------- MODULE WireTrace -----------------------------
(***************************************************************************)
(* Conformance of recorded or generated objects with AvbWire.  A case is   *)
(*   bo, cid, nobj     byte order, class, number of objects in the file    *)
(*   rec   (optional)  the object's values                                 *)
(*   plans (optional)  order / choice of optional sections per section     *)
(*   bytes (optional)  the bytes the implementation wrote or is to read    *)
(* The result carries what the specification says: the encoding of rec,    *)
(* the decoding of bytes (or of that encoding) and the failing clauses.    *)
(***************************************************************************)
EXTENDS AvbWire, Json, IOUtils

Input == JsonDeserialize(IOEnv.IN)

Has(e, k) == k \in DOMAIN e
FirstDiff(a, b) == CHOOSE j \in 1..(Min2(Len(a), Len(b)) + 1) :
                      /\ \/ j > Min2(Len(a), Len(b))
                         \/ a[j] # b[j]
                      /\ \A k \in 1..(j - 1) : a[k] = b[k]

Result(e) ==
  LET enc == IF ~Has(e, "rec") THEN <<>>
             ELSE IF Has(e, "plans") THEN EncodePlan(e.bo, e.cid, e.rec, e.plans)
             ELSE Encode(e.bo, e.cid, e.rec)
      src == IF Has(e, "bytes") THEN e.bytes ELSE enc
      want == Has(e, "dec")
      dec == IF want THEN Decode(e.bo, e.cid, IF e.dec = "enc" THEN enc ELSE src, e.nobj)
             ELSE [ok |-> TRUE, p |-> 0, r |-> 0, why |-> ""]
      clauses ==
        (IF Has(e, "rec") /\ Has(e, "bytes") /\ enc # e.bytes
         THEN << "bytes differ at " \o ToString(FirstDiff(enc, e.bytes)) \o " of " \o ToString(Len(enc))
                 \o "/" \o ToString(Len(e.bytes)) >> ELSE <<>>)
        \o (IF want /\ e.dec = "enc" /\ ~dec.ok THEN << "the encoding does not decode: " \o dec.why >> ELSE <<>>)
  IN [clauses |-> clauses, enc |-> IF Has(e, "wantenc") THEN enc ELSE <<>>,
      ok |-> dec.ok, why |-> dec.why, at |-> dec.p, dec |-> dec.r]

\* in the assumption itself, so that constants are evaluated (once) before it
ASSUME JsonSerialize(IOEnv.OUT, [k \in 1..Len(Input) |-> Result(Input[k])])

\* the trace itself: one step per case
VARIABLE pos
Init == pos = 0
Next == pos < Len(Input) /\ pos' = pos + 1
=============================================================================
