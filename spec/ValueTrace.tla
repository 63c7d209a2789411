---------------------------- MODULE ValueTrace ----------------------------
(***************************************************************************)
(* Assigning one value somewhere in a storable object and saving it.       *)
(* A case: cid, bo, nobj, rec (without the value), and                     *)
(*   what = "scalar": path, t, x     - a field of type t gets x            *)
(*   what = "fits":   t, x           - as before, elsewhere in the object  *)
(*   what = "blob":   t, n           - a byte string of n bytes            *)
(*   what = "count":  t, n           - a list of n elements                *)
(*   what = "exact":  want, n        - a fixed list of `want` gets n       *)
(*   what = "have":   have           - the properties that are present     *)
(*   what = "never"                  - not a value of the field at all     *)
(* ok says whether the format holds the result; enc is its encoding.       *)
(***************************************************************************)
EXTENDS AvbValues, Json, IOUtils
Input == JsonDeserialize(IOEnv.IN)
Ok(e) == CASE e.what = "scalar" -> Fits(e.t, e.x)
           [] e.what = "fits"   -> Fits(e.t, e.x)
           [] e.what = "blob"  -> BlobFits(e.t, e.n)
           [] e.what = "count" -> CountFits(e.t, e.n)
           [] e.what = "exact" -> e.n = e.want
           [] e.what = "have"  -> Complete(e.cid, { e.have[j] : j \in 1..Len(e.have) })
           [] OTHER -> FALSE
Result(e) ==
  LET fits == Ok(e)
      rec == IF e.what = "scalar" /\ fits THEN SetPath(e.rec, e.path, Wire(e.t, e.x)) ELSE e.rec
      \* fields may constrain each other: what is stored has to be readable
      ok == fits /\ (e.what = "scalar" => Decode(e.bo, e.cid, Encode(e.bo, e.cid, rec), e.nobj).ok)
  IN [ok |-> ok,
      clauses |-> IF "bytes" \notin DOMAIN e THEN <<>>
                  ELSE IF ~ok THEN << "the format cannot hold this" >>
                  ELSE IF "rec" \in DOMAIN e /\ Encode(e.bo, e.cid, rec) # e.bytes THEN << "another value was stored" >>
                  ELSE <<>>]
ASSUME JsonSerialize(IOEnv.OUT, [k \in 1..Len(Input) |-> Result(Input[k])])
VARIABLE pos
Init == pos = 0
Next == pos < Len(Input) /\ pos' = pos + 1
=============================================================================
