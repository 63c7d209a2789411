----------------------------- MODULE AvbLife ------------------------------
(***************************************************************************)
(* The life of objects in memory: how a document that is read piece by     *)
(* piece, whose objects are dropped when nobody needs them, still never    *)
(* loses a change and never shows two faces of one object.                 *)
(*                                                                         *)
(* A small document: the hub of the root names objects "a" and "b"; every  *)
(* object n has a value v, a value b that lives in a helper nested inside  *)
(* it, and a reference x (0: none).  A program has two variables.          *)
(*   doc    what the document contains: the abstract state                 *)
(*   disk   what the opened file contains                                  *)
(*   mem    the objects in memory; strong: x is held, not only a number    *)
(*   mod    changed objects, kept in memory until the document is closed   *)
(*   vars   the two variables                                              *)
(*   named  the names of the hub that were changed                         *)
(* Do(st, a) is the next state; the concrete part follows the algorithm of *)
(* the library (objects read on demand into a cache that does not keep     *)
(* them, a set of changed ones that does), the abstract part follows doc   *)
(* alone.  Right(st) says that the two agree.                              *)
(* Fault plants a mistake in the algorithm (for checking the model).       *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

Node(v, b, x) == [v |-> v, b |-> b, x |-> x]
Stored == (1 :> Node(0, 0, 0)) @@ (2 :> Node(0, 0, 1)) @@ (3 :> Node(0, 1, 1))
Tops == [a |-> 2, b |-> 3]
Fresh == [doc |-> Stored, disk |-> Stored, mem |-> << >>, mod |-> {}, vars |-> << 0, 0 >>, nx |-> 4, tops |-> Tops, named |-> {}]

RECURSIVE Close(_, _, _)
\* everything reached from a set along e (a function to sets)
Close(s, e, n) == LET t == s \cup UNION { e[m] : m \in s \cap DOMAIN e } IN IF t = s \/ n = 0 THEN s ELSE Close(t, e, n - 1)
Below(doc, s) == Close(s \ {0}, [n \in DOMAIN doc |-> {doc[n].x} \ {0}], 9)
TopsOf(st) == { st.tops.a, st.tops.b }

\* memory: what is neither in a variable, nor changed, nor held by one that is, goes
Kept(st) == ({ st.vars[1], st.vars[2] } \ {0}) \cup st.mod \cup { st.tops[k] : k \in st.named }
Held(st) == Close(Kept(st),
                  [n \in DOMAIN st.mem |-> IF st.mem[n].strong THEN {st.mem[n].x} \ {0} ELSE {}], 9)
Sweep(st) == LET k == Held(st) IN [st EXCEPT !.mem = [n \in DOMAIN @ \cap k |-> @[n]]]
Load(st, n) == IF n = 0 \/ n \in DOMAIN st.mem \/ n \notin DOMAIN st.disk THEN st
               ELSE [st EXCEPT !.mem = (n :> [v |-> st.disk[n].v, b |-> st.disk[n].b, x |-> st.disk[n].x, strong |-> FALSE]) @@ @]
Face(st, n) == IF n \in DOMAIN st.mem THEN st.mem[n]
               ELSE IF n \in DOMAIN st.disk THEN st.disk[n] ELSE [v |-> -1, b |-> -1, x |-> 0]

\* the algorithm shows what the document is
Right(st) == \A n \in Below(st.doc, TopsOf(st) \cup { st.vars[1], st.vars[2] }) :
  LET f == Face(st, n) IN f.v = st.doc[n].v /\ f.b = st.doc[n].b /\ f.x = st.doc[n].x
Reachable(st) == Below(st.doc, TopsOf(st))
NumbersOnce(st) == st.nx \notin DOMAIN st.doc /\ st.nx \notin DOMAIN st.disk /\ st.nx \notin DOMAIN st.mem
\* only what a program holds or changed is in memory
Frugal(st) == DOMAIN st.mem \subseteq Below(st.doc, Kept(st))

Other(i) == 3 - i
Mark(st, n, f) == IF f THEN st ELSE [st EXCEPT !.mod = @ \cup {n}]
SizeOf(doc, n) == IF n = 0 THEN 0 ELSE Cardinality(Below(doc, {n}))   \* a chain: no object is met twice
RECURSIVE Chain(_, _)
Chain(doc, n) == IF n = 0 THEN <<>> ELSE << n >> \o Chain(doc, doc[n].x)

\* ---- what can be done: [op, i, k] -----------------------------------------
Paths == { "a", "b", "ax", "bx" }
TopOf == [a |-> "a", b |-> "b", ax |-> "a", bx |-> "b"]
VarOf(st, k) == CASE k = "1" -> st.vars[1] [] k = "2" -> st.vars[2] [] OTHER -> 0
Enabled(st, a, most) ==
  CASE a.op = "get" -> TRUE
    [] a.op = "step" -> st.vars[a.i] # 0
    [] a.op = "drop" -> st.vars[a.i] # 0
    [] a.op = "set" -> st.vars[a.i] # 0
    [] a.op = "nest" -> st.vars[a.i] # 0 /\ st.vars[a.i] \in st.mod
    [] a.op = "ref" -> st.vars[a.i] # 0 /\ (a.k = "0" \/ (VarOf(st, a.k) # 0 /\ st.vars[a.i] \notin Below(st.doc, { VarOf(st, a.k) })))
    [] a.op = "new" -> st.nx <= most
    [] a.op = "copy" -> st.vars[a.i] # 0 /\ st.nx + SizeOf(st.doc, st.vars[a.i]) - 1 <= most
    [] a.op = "hub" -> st.vars[a.i] # 0
    [] OTHER -> TRUE
Act(op, i, k) == [op |-> op, i |-> i, k |-> k]
Acts == { Act("get", i, p) : i \in {1, 2}, p \in Paths } \cup { Act(o, i, "0") : o \in { "step", "drop", "set", "nest", "new", "copy" }, i \in {1, 2} }
        \cup { Act("ref", i, k) : i \in {1, 2}, k \in {"0", "1", "2"} } \cup { Act("reopen", 0, "0"), Act("hub", 1, "a"), Act("hub", 2, "b") }
\* what changes nothing at all
Quiet == { Act(o, 0, "0") : o \in { "save", "over", "fail", "gc", "look" } }

DoIt(st, a, fault) ==
  LET n == IF a.i \in {1, 2} THEN st.vars[a.i] ELSE 0 IN
  CASE a.op = "get" ->
         LET s1 == Load(st, st.tops[TopOf[a.k]])
             m == IF a.k = TopOf[a.k] THEN s1.tops[a.k] ELSE Face(s1, s1.tops[TopOf[a.k]]).x
         IN [Load(s1, m) EXCEPT !.vars[a.i] = m]
    [] a.op = "step" -> LET m == Face(st, n).x IN [Load(st, m) EXCEPT !.vars[a.i] = m]
    [] a.op = "drop" -> [st EXCEPT !.vars[a.i] = 0]
    [] a.op = "set" -> Mark([st EXCEPT !.doc[n].v = 1 - @, !.mem[n].v = 1 - @], n, fault = "set-unmarked")
    [] a.op = "nest" -> [st EXCEPT !.doc[n].b = 1 - @, !.mem[n].b = 1 - @]
    [] a.op = "ref" -> LET m == VarOf(st, a.k) IN
         Mark([st EXCEPT !.doc[n].x = m, !.mem[n].x = m, !.mem[n].strong = TRUE], n, fault = "ref-unmarked")
    [] a.op = "new" ->
         LET m == IF fault = "number-again" THEN Cardinality(DOMAIN st.disk) + 1 ELSE st.nx IN
         Mark([st EXCEPT !.doc = (m :> Node(0, 0, 0)) @@ @, !.mem = (m :> [v |-> 0, b |-> 0, x |-> 0, strong |-> FALSE]) @@ @,
                         !.nx = st.nx + 1, !.vars[a.i] = m], m, FALSE)
    [] a.op = "copy" ->
         LET c == Chain(st.doc, n)
             at(j) == st.nx + j - 1
             made == [m \in st.nx..(st.nx + Len(c) - 1) |->
                        [v |-> st.doc[c[m - st.nx + 1]].v, b |-> st.doc[c[m - st.nx + 1]].b,
                         x |-> IF m - st.nx + 1 = Len(c) THEN 0 ELSE m + 1]]
         IN [st EXCEPT !.doc = made @@ @, !.nx = @ + Len(c), !.mod = @ \cup DOMAIN made, !.vars[Other(a.i)] = st.nx,
                       !.mem = [m \in DOMAIN made |-> [v |-> made[m].v, b |-> made[m].b, x |-> made[m].x, strong |-> TRUE]] @@ @]
    [] a.op = "hub" -> [st EXCEPT !.tops[a.k] = n, !.named = @ \cup {a.k}]    \* the hub is changed: it is kept, and holds what it names now
    [] a.op = "reopen" ->
         LET keep == Below(st.doc, TopsOf(st))
             file == [m \in keep |-> LET f == Face(st, m) IN Node(f.v, f.b, f.x)]
         IN [st EXCEPT !.doc = [m \in keep |-> @[m]], !.disk = IF fault = "save-disk" THEN [m \in keep |-> IF m \in DOMAIN st.disk THEN st.disk[m] ELSE file[m]] ELSE file,
                       !.mem = << >>, !.mod = {}, !.named = {}, !.vars = << 0, 0 >>]
    [] OTHER -> IF fault = "save-forgets" /\ a.op = "save" THEN [st EXCEPT !.mod = {}] ELSE st
Do(st, a, fault) == Sweep(DoIt(st, a, fault))

\* ---- what a program sees --------------------------------------------------
\* the document as a list of objects in the order they are met: [v, b, place of x]
Order(st) == LET a == Chain(st.doc, st.tops.a)
                 c == Chain(st.doc, st.tops.b)
             IN a \o SelectSeq(c, LAMBDA n : \A j \in 1..Len(a) : a[j] # n)
PlaceIn(s, n) == IF n = 0 THEN 0 ELSE CHOOSE j \in 1..Len(s) : s[j] = n
Tree(st) == LET s == TLCEval(Order(st)) IN
  [nodes |-> [j \in 1..Len(s) |-> << st.doc[s[j]].v, st.doc[s[j]].b, PlaceIn(s, st.doc[s[j]].x) >>],
   tops |-> << PlaceIn(s, st.tops.a), PlaceIn(s, st.tops.b) >>]
VarFace(st, i) == IF st.vars[i] = 0 THEN <<>> ELSE LET f == st.doc[st.vars[i]] IN << f.v, f.b, IF f.x = 0 THEN 0 ELSE 1 >>
=============================================================================
