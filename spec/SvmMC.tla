------------------------------- MODULE SvmMC -------------------------------
(* The dual of the support-vector machine on a grid of multipliers: pairs of *)
(* multipliers that violate the optimality conditions move along the         *)
(* equality constraint. Multipliers count 1/Unit; C is the box. Scores are   *)
(* scaled by Unit.                                                           *)
EXTENDS Linear, TLC
CONSTANTS Dim, Grid, N, C, Unit, Variant
VARIABLES xs, ys, a, status
vars == <<xs, ys, a, status>>
K(i, j) == Dot(xs[i], xs[j])
\* score without bias, times Unit
U(al, i) == SumSeq([j \in DOMAIN xs |-> al[j] * ys[j] * K(i, j)])
\* objective times 2 Unit^2
Objective(al) == 2 * Unit * SumSeq(al) - SumSeq([i \in DOMAIN xs |-> al[i] * ys[i] * U(al, i)])
Feasible(al) == /\ \A i \in DOMAIN xs : 0 <= al[i] /\ al[i] <= C
                /\ SumSeq([i \in DOMAIN xs |-> al[i] * ys[i]]) = 0
\* bounds on the bias (times Unit): at least those of Low, at most those of Up
G(al, i) == Unit * ys[i] - U(al, i)
LowSet(al) == {i \in DOMAIN xs : (ys[i] = 1 /\ al[i] < C) \/ (ys[i] = -1 /\ al[i] > 0)}
UpSet(al) == {i \in DOMAIN xs : (ys[i] = 1 /\ al[i] > 0) \/ (ys[i] = -1 /\ al[i] < C)}
Optimal(al, tol) == \A i \in LowSet(al), j \in UpSet(al) : G(al, i) <= G(al, j) + tol
Less(p, q) == IF p[1] # q[1] THEN p[1] < q[1] ELSE IF Dim = 1 THEN TRUE ELSE p[2] <= q[2]
Init == /\ xs \in [1..N -> [1..Dim -> (-Grid)..Grid]] /\ ys \in [1..N -> {-1, 1}]
        /\ \A k \in 1..(N - 1) : Less(xs[k], xs[k + 1])
        /\ {ys[k] : k \in 1..N} = {-1, 1}
        /\ a = [k \in 1..N |-> 0] /\ status = "run"
\* raise the side of i, lower the side of j by one unit: label-weighted sum is kept
Moved(i, j) == [a EXCEPT ![i] = @ + ys[i], ![j] = @ - (IF Variant = "drift" THEN ys[i] ELSE ys[j])]
Step == \E i \in LowSet(a), j \in UpSet(a) :
            /\ G(a, i) > G(a, j)
            /\ Objective(Moved(i, j)) > Objective(a)
            /\ a' = Moved(i, j) /\ UNCHANGED status
Stop == /\ \A i \in LowSet(a), j \in UpSet(a) : G(a, i) > G(a, j) => Objective(Moved(i, j)) <= Objective(a)
        /\ status' = "done" /\ UNCHANGED a
Next == status = "run" /\ UNCHANGED <<xs, ys>> /\ (Step \/ Stop)
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
Feasibility == Feasible(a)
Climbs == [][Objective(a') >= Objective(a)]_vars
Ends == <>(status = "done")
\* the conditions the code is judged by characterise the optimum
Characterised == LET grid == {al \in [1..N -> 0..C] : Feasible(al)} IN
    Optimal(a, IF Variant = "slack" THEN 4 * Unit ELSE 0) => \A al \in grid : Objective(al) <= Objective(a)
\* and at the end no pair violates them by more than a grid step can repair
Nearly == status = "done" => \A i \in LowSet(a), j \in UpSet(a) :
             G(a, i) - G(a, j) <= K(i, i) + K(j, j) - 2 * K(i, j)
=============================================================================
