------------------------------- MODULE KMeansMC -------------------------------
(* The training loop of k-means: assign, move the centres, compare the cost  *)
(* with the previous one; over every small data set and every start.         *)
EXTENDS KMeans, TLC, Json
CONSTANTS N, K, Span, Variant, Emit
VARIABLES pts, cen, clusters, cost, old, phase, first
vars == <<pts, cen, clusters, cost, old, phase, first>>

Grid == [1..1 -> 0..Span]
None == <<-1, 1>>
Init == /\ \E n \in 1..N : pts \in [1..n -> Grid] /\ \A i \in 1..(n - 1) : pts[i][1] <= pts[i + 1][1]
        /\ \E k \in 1..K : k <= Len(pts) /\ cen \in Starts(pts, k, FALSE)
        /\ clusters = [j \in DOMAIN cen |-> <<>>] /\ cost = None /\ old = None /\ phase = "assign" /\ first = TRUE

Chosen(i) == Low(Nearest(pts[i], cen))
RECURSIVE Fill(_, _)
Fill(cl, i) == IF i > Len(pts) THEN cl ELSE Fill([cl EXCEPT ![Chosen(i)] = Append(@, i)], i + 1)
AllDen == ProdF([j \in DOMAIN cen |-> Den(cen[j])], 1, Len(cen))
CostNow == <<Total([i \in DOMAIN pts |-> LET c == cen[Chosen(i)] IN Num(pts[i], c) * (AllDen \div Den(c))]), AllDen>>
Assign == /\ phase = "assign" /\ phase' = "move"
          /\ clusters' = Fill(IF Variant = "append" THEN clusters ELSE [j \in DOMAIN cen |-> <<>>], 1)
          /\ old' = cost /\ cost' = CostNow /\ UNCHANGED <<pts, cen, first>>
InCluster(j) == {clusters[j][i] : i \in DOMAIN clusters[j]}
NewCentre(j) ==
    LET S == InCluster(j) m == MeanOf(pts, S) IN
    IF S = {} THEN cen[j]
    ELSE IF Variant = "notReset" THEN LET c == cen[j] n == Cardinality(S) IN
         Centre([d \in 1..Dim(pts) |-> c.s[d] + c.n * SumSet(pts, S, d)], c.n * n)
    ELSE m
Same == old # None /\ cost[1] * old[2] = old[1] * cost[2]
Zero == cost[1] = 0
Move == /\ phase = "move" /\ cen' = [j \in DOMAIN cen |-> NewCentre(j)]
        /\ phase' = (IF Same \/ Zero \/ Variant = "once" THEN "done" ELSE "assign") /\ first' = FALSE
        /\ UNCHANGED <<pts, clusters, cost, old>>
Next == Assign \/ Move
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

Partition == phase # "assign" => \A i \in DOMAIN pts :
    Cardinality({<<j, p>> \in (DOMAIN cen) \X (1..(4 * N)) : p \in DOMAIN clusters[j] /\ clusters[j][p] = i}) = 1
Descends == (phase = "move" /\ old # None) => cost[1] * old[2] <= old[1] * cost[2]
Converged == phase = "done" => /\ Final(pts, cen)
                               /\ \A j \in DOMAIN cen : InCluster(j) # {} => cen[j] = MeanOf(pts, InCluster(j))
                               /\ \A j \in DOMAIN cen : \A i \in InCluster(j) : j \in Nearest(pts[i], cen)
\* what the judge calls the results are exactly what the loop can end with
Judged == phase = "done" => cen \in Results(pts, Len(cen), FALSE)
Ends == <>(phase = "done")
Printed == (Emit /\ first /\ phase = "assign" /\ \A j \in DOMAIN cen : cen[j] = At(pts, 1))
           => PrintT("@H" \o ToJson([pts |-> [i \in DOMAIN pts |-> pts[i][1]], k |-> Len(cen)]))
=============================================================================
