---------------------------- MODULE NeighboursMC ----------------------------
(* The prediction algorithms over small inputs: partial selection of k       *)
(* nearest points (any outcome a selection algorithm may have), counting     *)
(* votes class by class, summing targets; partner choice of over-sampling.   *)
EXTENDS Neighbours, TLC, Json
CONSTANTS N, MaxD, Labels, Emit
VARIABLES ds, ys, k, phase, chosen, cls, best, freq, sum
vars == <<ds, ys, k, phase, chosen, cls, best, freq, sum>>

ClassList(s) == LET F[i \in 0..Len(s)] == IF i = 0 THEN <<>> ELSE
                        IF \E j \in DOMAIN F[i - 1] : F[i - 1][j] = s[i] THEN F[i - 1] ELSE Append(F[i - 1], s[i])
                IN F[Len(s)]
Init == /\ \E n \in 1..N : ds \in [1..n -> 0..MaxD] /\ ys \in [1..n -> Labels] /\ k \in 1..n
        /\ phase = "select" /\ chosen = {} /\ cls = 1 /\ best = 1 /\ freq = 0 /\ sum = 0
\* what a selection algorithm guarantees: the first k of a permutation are not farther than the others
Select == /\ phase = "select" /\ phase' = "vote"
          /\ chosen' \in {S \in SUBSET (DOMAIN ds) :
                Cardinality(S) = k /\ \A i \in S, j \in DOMAIN ds \ S : ds[i] <= ds[j]}
          /\ UNCHANGED <<ds, ys, k, cls, best, freq, sum>>
Vote == /\ phase = "vote" /\ cls <= Len(ClassList(ys))
        /\ LET f == Votes(chosen, ys, ClassList(ys)[cls]) IN
           IF f > freq THEN freq' = f /\ best' = cls ELSE UNCHANGED <<freq, best>>
        /\ cls' = cls + 1 /\ UNCHANGED <<ds, ys, k, phase, chosen, sum>>
Mean == /\ phase = "vote" /\ cls > Len(ClassList(ys)) /\ phase' = "done"
        /\ sum' = SumOver(chosen, ys) /\ UNCHANGED <<ds, ys, k, chosen, cls, best, freq>>
Next == Select \/ Vote \/ Mean
Spec == Init /\ [][Next]_vars

Agree == phase = "done" =>
    /\ chosen \in NearestSets(ds, k)
    /\ ClassList(ys)[best] \in Predictions(ds, ys, k)
    /\ sum \in Sums(ds, ys, k)
    /\ \A S \in NearestSets(ds, k) : Cardinality(S) = k
PartnerSets ==     \* sort, keep one point per distance, drop distance zero, take the first k
    phase = "select" =>
    LET firsts == {CHOOSE i \in DOMAIN ds : ds[i] = d : d \in Levels(ds)}
        taken == {i \in firsts : Cardinality({j \in firsts : ds[j] < ds[i]}) < k} IN
    /\ Cardinality(taken) = PartnerCount(ds, k)
    /\ \A i \in taken : Partner(ds, k, i)
    /\ Partners(ds, k) = {i \in DOMAIN ds : Partner(ds, k, i)}
Shortcuts ==
    phase = "select" =>
    /\ \A c \in Labels : Wins(ds, ys, k, c) = (c \in Predictions(ds, ys, k))
    /\ CutSums(ds, ys, k) = Sums(ds, ys, k)
Printed == (Emit /\ phase = "select") => PrintT("@H" \o ToJson([ds |-> ds, ys |-> ys, k |-> k]))
=============================================================================
