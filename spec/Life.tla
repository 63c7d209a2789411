------------------------------- MODULE Life -------------------------------
(***************************************************************************)
(* The life of objects explored: every state reached in at most Depth      *)
(* steps; PLAN=1 prints the actions that lead to every transition.         *)
(***************************************************************************)
EXTENDS AvbLife, IOUtils
CONSTANTS Depth, Most, Fault
VARIABLES st, hist
Word(a) == a.op \o ":" \o ToString(a.i) \o ":" \o a.k
Init == st = Fresh /\ hist = <<>>
Next == /\ Len(hist) < Depth
        /\ \E a \in Acts \cup (IF Fault = "save-forgets" THEN { Act("save", 0, "0") } ELSE {}) :
             Enabled(st, a, Most) /\ st' = Do(st, a, Fault) /\ hist' = Append(hist, Word(a))
Spec == Init /\ [][Next]_<< st, hist >>
Seen == << st, Len(hist) >>
Agrees == Right(st)
Numbers == NumbersOnce(st)
Small == Frugal(st)
\* looking, dropping and walking never change what the document is (C08)
OnlyEdits == [][LET o == hist'[Len(hist')] IN
                st'.doc # st.doc => \E a \in Acts : Word(a) = o /\ a.op \in { "set", "nest", "ref", "new", "copy", "reopen", "hub" }]_<< st, hist >>
\* a new object has a number no other object has, kept or not
NewNumbers == [][LET o == hist'[Len(hist')] IN
                 \A a \in Acts : Word(a) = o /\ a.op \in { "new", "copy" } => Cardinality(DOMAIN st'.doc) > Cardinality(DOMAIN st.doc)]_<< st, hist >>
Dump == IF IOEnv.PLAN = "1" THEN PrintT(<< "PLAN", hist' >>) ELSE TRUE
=============================================================================
