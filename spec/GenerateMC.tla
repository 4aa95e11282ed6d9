----------------------------- MODULE GenerateMC -----------------------------
(* How a dataset is generated: class by class, point by point, each of the   *)
(* kind of its class; then the points may be put in another order; then they *)
(* are numbered. Every request (points wanted of every class) is explored.   *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS K, Max, Variant, Emit
VARIABLES want, shuffled, c, j, pts, ids, phase
vars == <<want, shuffled, c, j, pts, ids, phase>>
Init == /\ \E k \in 1..K : want \in [1..k -> 0..Max]
        /\ shuffled \in BOOLEAN /\ c = 1 /\ j = 0 /\ pts = <<>> /\ ids = <<>> /\ phase = "grow"
Wanted(i) == IF Variant = "first" THEN want[1] ELSE want[i]
Grow == /\ phase = "grow" /\ c <= Len(want)
        /\ IF j < Wanted(c)
           THEN /\ pts' = Append(pts, c) /\ j' = j + 1 /\ UNCHANGED c
                /\ ids' = (IF Variant = "perClass" THEN Append(ids, j + 1) ELSE ids)
           ELSE j' = (IF Variant = "keepsCounting" THEN j ELSE 0) /\ c' = c + 1 /\ UNCHANGED <<pts, ids>>
        /\ UNCHANGED <<want, shuffled, phase>>
\* any order is a sequence of swaps of neighbours; one swap is enough to lose a number
Order == /\ phase = "grow" /\ c > Len(want)
         /\ phase' = "number"
         /\ \/ pts' = pts
            \/ shuffled /\ \E a \in 1..Len(pts) : \E b \in (a + 1)..Len(pts) : pts' = [pts EXCEPT ![a] = pts[b], ![b] = pts[a]]
         /\ UNCHANGED <<want, shuffled, c, j, ids>>
Number == /\ phase = "number" /\ phase' = "done"
          /\ ids' = (IF Variant = "perClass" THEN ids ELSE [i \in DOMAIN pts |-> i])
          /\ UNCHANGED <<want, shuffled, c, j, pts>>
Next == Grow \/ Order \/ Number
Spec == Init /\ [][Next]_vars
RECURSIVE Total(_, _)
Total(w, n) == IF n = 0 THEN 0 ELSE w[n] + Total(w, n - 1)
Shape == phase = "done" =>
    /\ Len(pts) = Total(want, Len(want))
    /\ \A i \in DOMAIN want : Cardinality({p \in DOMAIN pts : pts[p] = i}) = want[i]
    /\ ids = [i \in DOMAIN pts |-> i]
Grouped == (phase = "done" /\ ~shuffled) => \A a \in DOMAIN pts : \A b \in DOMAIN pts : a < b => pts[a] <= pts[b]
Printed == (Emit /\ phase = "grow" /\ c = 1 /\ j = 0) => PrintT("@H" \o ToJson([want |-> want, sh |-> shuffled]))
=============================================================================
