---- MODULE SchemaExport ----
(* Writes the layout table as JSON for the harness. *)
EXTENDS AvbSchema, Json, IOUtils, TLC
Out == [classes |-> Classes, track |-> TrackFields, binitem |-> BinItemItems, sift |-> SiftItems,
        plugin |-> PluginItems]
ASSUME JsonSerialize(IOEnv.OUT, Out)
VARIABLE x
Init == x = 0
Next == FALSE /\ x' = x
====
