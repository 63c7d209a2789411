----------------------------- MODULE AvbDisk ------------------------------
(***************************************************************************)
(* Files under a save: which bytes are at a path after each change, after  *)
(* a change that was cut short, and whether what is there may be opened.   *)
(*                                                                         *)
(* A disk is [names: path -> file, data: file -> bytes].                   *)
(***************************************************************************)
EXTENDS AvbFile

Absent == << -1 >>
Image(d, path) == IF path \in DOMAIN d.names THEN d.data[d.names[path]] ELSE Absent
Bind(f, k, v) == [x \in (DOMAIN f) \cup { k } |-> IF x = k THEN v ELSE f[x]]
Without(f, k) == [x \in (DOMAIN f) \ { k } |-> f[x]]
\* bytes v written at offset o (0 is the start); a gap reads as zeros
Overlay(b, o, v) == TLCEval([i \in 1..(IF o + Len(v) > Len(b) THEN o + Len(v) ELSE Len(b)) |->
                       IF i > o /\ i <= o + Len(v) THEN v[i - o] ELSE IF i <= Len(b) THEN b[i] ELSE 0])
Change(d, e) ==
  CASE e.op = "open" ->
         LET n == Bind(d.names, e.name, e.file) IN
         IF e.new \/ e.trunc THEN [names |-> n, data |-> Bind(d.data, e.file, << >>)]
         ELSE [names |-> n, data |-> d.data]
    [] e.op = "write" -> [d EXCEPT !.data[e.file] = Overlay(@, e.at, e.b)]
    [] e.op = "trunc" -> [d EXCEPT !.data[e.file] = [i \in 1..e.n |-> IF i <= Len(@) THEN @[i] ELSE 0]]
    [] e.op = "rename" -> [names |-> Bind(Without(d.names, e.from), e.to, d.names[e.from]), data |-> d.data]
    [] e.op = "unlink" -> [d EXCEPT !.names = Without(@, e.name)]
    [] OTHER -> d
\* a write of which only the first n bytes happened
Torn(e, n) == [e EXCEPT !.b = SubSeq(@, 1, n)]

IsDocument(b) == IF b = Absent THEN FALSE
                 ELSE LET f == ParseFile(b) IN IF ~f.ok THEN FALSE ELSE ReadChunk(f, b, f.root).ok
\* what may be at the target: nothing, what was there before, no document, or the finished one
Harmless(image, before, whole) == image = before \/ image = whole \/ ~IsDocument(image)

\* the disks a run of changes goes through, the first one included
RECURSIVE Disks(_, _, _)
Disks(d, es, j) == IF j > Len(es) THEN << d >> ELSE << d >> \o Disks(TLCEval(Change(d, es[j])), es, j + 1)
=============================================================================
