------------------------------- MODULE Save -------------------------------
(***************************************************************************)
(* How a document is saved: the target is emptied, header and objects go   *)
(* through a buffer, the counts are patched into the header last.  Any     *)
(* change of the disk can fail - once, or from then on - any object can    *)
(* turn out not to be writable, and the program can end at any moment.     *)
(* A failed save empties its buffer when it closes the file.  The document *)
(* reads objects from its source when they are needed; the target may be   *)
(* the source.  Up to two saves are disturbed, then one is not.            *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets
CONSTANTS N,            \* objects
          Eager,        \* counts kept up to date while objects are written
          Keep          \* the source is taken into memory before it is emptied
VARIABLES pc, disk, buf, i, bad, fault, same, src, read, left
vars == << pc, disk, buf, i, bad, fault, same, src, read, left >>

Objects == 1..N
\* cells of a file: the header with the counts it shows, then objects
Whole == << [h |-> N] >> \o [k \in Objects |-> [o |-> k]]
\* the header names the object the document starts from, the last one counted
Opens(d) == Len(d) > 0 /\ d[1].h > 0 /\ d[1].h < Len(d)
At(d, op) == [k \in 1..(IF op.at > Len(d) THEN op.at ELSE Len(d)) |-> IF k = op.at THEN op.c ELSE d[k]]

Init == /\ pc = "idle" /\ disk = << >> /\ buf = << >> /\ i = 0
        /\ bad \in 0..N /\ fault \in { "none", "once", "forever" } /\ same \in BOOLEAN
        /\ src = "file" /\ read = {} /\ left = 2

Start == /\ pc = "idle" /\ left >= 0
         /\ src' = IF same /\ Keep /\ src = "file" THEN "memory" ELSE src
         /\ pc' = "open" /\ i' = 0 /\ buf' = << >>
         /\ UNCHANGED << disk, bad, fault, same, read, left >>
Faulty == fault # "none"
Open == /\ pc = "open" /\ disk' = << >> /\ pc' = "header"
        /\ src' = IF same /\ src = "file" THEN "lost" ELSE src
        /\ UNCHANGED << buf, i, bad, fault, same, read, left >>
OpenFails == /\ pc = "open" /\ Faulty /\ pc' = "failed"
             /\ fault' = IF fault = "once" THEN "none" ELSE fault
             /\ UNCHANGED << disk, buf, i, bad, same, src, read, left >>
Header == /\ pc = "header" /\ buf' = << [at |-> 1, c |-> [h |-> 0]] >>
          /\ pc' = "objects" /\ i' = 1 /\ UNCHANGED << disk, bad, fault, same, src, read, left >>
\* an object is needed: from memory, or from the source
Have(k) == k \in read \/ src # "lost"
Object == /\ pc = "objects" /\ i <= N /\ i # bad /\ Have(i)
          /\ read' = read \cup { i } /\ i' = i + 1
          /\ buf' = buf \o << [at |-> i + 1, c |-> [o |-> i]] >> \o (IF Eager THEN << [at |-> 1, c |-> [h |-> i]] >> ELSE << >>)
          /\ UNCHANGED << pc, disk, bad, fault, same, src, left >>
ObjectFails == /\ pc = "objects" /\ i <= N /\ (i = bad \/ ~Have(i)) /\ pc' = "closing"
               /\ UNCHANGED << disk, buf, i, bad, fault, same, src, read, left >>
\* the buffer can reach the disk at any time
Flush == /\ buf # << >> /\ pc \in { "objects", "patch", "close", "closing" }
         /\ disk' = At(disk, Head(buf)) /\ buf' = Tail(buf)
         /\ UNCHANGED << pc, i, bad, fault, same, src, read, left >>
FlushFails == /\ buf # << >> /\ Faulty /\ pc \in { "objects", "patch", "close", "closing" }
              /\ fault' = IF fault = "once" THEN "none" ELSE fault
              /\ pc' = IF pc = "closing" THEN "failed" ELSE "closing"
              /\ buf' = IF pc = "closing" THEN << >> ELSE buf
              /\ UNCHANGED << disk, i, bad, same, src, read, left >>
\* going back in the file flushes first
Patch == /\ pc = "objects" /\ i > N /\ buf = << >>
         /\ buf' = << [at |-> 1, c |-> [h |-> N]] >> /\ pc' = "close"
         /\ UNCHANGED << disk, i, bad, fault, same, src, read, left >>
Close == /\ pc = "close" /\ buf = << >> /\ pc' = "saved"
         /\ UNCHANGED << disk, buf, i, bad, fault, same, src, read, left >>
CloseFailed == /\ pc = "closing" /\ buf = << >> /\ pc' = "failed"
               /\ UNCHANGED << disk, buf, i, bad, fault, same, src, read, left >>
Crash == /\ pc \notin { "idle", "crashed" } /\ pc' = "crashed"
         /\ UNCHANGED << disk, buf, i, bad, fault, same, src, read, left >>
\* something else next time; the last save is not disturbed
Again == /\ pc \in { "saved", "failed" } /\ left > 0 /\ pc' = "idle" /\ left' = left - 1
         /\ IF left = 1 THEN bad' = 0 /\ fault' = "none" /\ same' = FALSE
            ELSE bad' \in 0..N /\ fault' \in { "none", "once", "forever" } /\ same' \in BOOLEAN
         /\ disk' = << >> /\ UNCHANGED << buf, i, src, read >>
Next == \/ Start \/ Open \/ OpenFails \/ Header \/ Object \/ ObjectFails \/ Flush \/ FlushFails \/ Patch \/ Close
        \/ CloseFailed \/ Crash \/ Again
Spec == Init /\ [][Next]_vars

NeverMistaken == Opens(disk) => disk = Whole
Saved == pc = "saved" => disk = Whole
Unharmed == \A k \in Objects : Have(k)
LaterSucceeds == left = 0 => pc \notin { "failed", "closing" }
=============================================================================
