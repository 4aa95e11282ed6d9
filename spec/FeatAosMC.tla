----------------------------- MODULE FeatAosMC ------------------------------
(* Best-first search over sets of removed features. A node is a set with a   *)
(* value: first projected from its parent, later learned. Expanding the      *)
(* first node of a level closes that level: its set is what a run that       *)
(* empties the heap returns. Closed levels prune the older nodes. A set      *)
(* enters the heap once.                                                     *)
EXTENDS Integers, FiniteSets, Sequences, TLC
CONSTANTS D, Breadth, MaxValue, Failures, Variant
VARIABLES depth, heap, seen, closed, answer, status
vars == <<depth, heap, seen, closed, answer, status>>
All == 1..D
Node(s, v, r) == [set |-> s, value |-> v, real |-> r]
Level(n) == Cardinality(n.set)
Width(s) == LET left == D - Cardinality(s) IN IF left < Breadth THEN left ELSE Breadth
Children(s) == {c \in SUBSET {s \cup {f} : f \in All \ s} : Cardinality(c) = Width(s)}
Push(h, c, v) == h \cup {Node(s, v, FALSE) : s \in c \ seen}
Init == /\ depth \in 1..(D - 1) /\ closed = 0 /\ answer = {} /\ status = "run"
        /\ \E c \in Children({}), v \in 1..MaxValue : heap = {Node(s, v, FALSE) : s \in c} /\ seen = c
Best == {n \in heap : \A m \in heap : n.value >= m.value}
Prune(h, lev) == {m \in h : Level(m) >= lev}
Expand(n, c, v) ==
    LET first == Level(n) > closed
        h == Push(heap \ {n}, c, v) IN
    /\ closed' = IF first THEN Level(n) ELSE closed
    /\ answer' = IF first THEN n.set ELSE answer
    /\ heap' = IF first THEN Prune(h, Level(n)) ELSE h
    /\ seen' = seen \cup c
Learn(n, v) ==
    LET m == Node(n.set, v, TRUE) IN
    IF (\E k \in heap \ {n} : k.value > v) \/ Level(n) = depth
    THEN heap' = (heap \ {n}) \cup {m} /\ UNCHANGED <<seen, closed, answer>>
    ELSE \E c \in Children(n.set), w \in 1..MaxValue : Expand(n, c, w)
Drop(n) == heap' = heap \ {n} /\ UNCHANGED <<seen, closed, answer>>
Next == /\ status = "run" /\ UNCHANGED depth
        /\ IF heap = {} THEN status' = "done" /\ UNCHANGED <<heap, seen, closed, answer>>
           ELSE /\ status' = "run"
                /\ \E n \in Best :
                     IF Level(n) > depth \/ (Variant = "shallow" /\ Level(n) = depth) THEN Drop(n)
                     ELSE IF n.real THEN \E c \in Children(n.set), w \in 1..MaxValue : Expand(n, c, w)
                     ELSE \/ \E v \in 1..MaxValue : Learn(n, v)
                          \/ (Failures \/ Variant = "fails") /\ Drop(n)
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
NeverBeyond == Cardinality(answer) <= depth /\ closed = Cardinality(answer)
\* without failures the requested number of features is reached
Requested == (status = "done" /\ ~Failures) => Cardinality(answer) = depth
Once == \A n, m \in heap : n.set = m.set => n = m
Ends == <>(status = "done")
=============================================================================
