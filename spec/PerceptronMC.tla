---------------------------- MODULE PerceptronMC ----------------------------
(* Training of the perceptrons, step by step: one state per visited point.   *)
(*   plain   points in their order; an epoch ends early at a correct point   *)
(*           when it had two mistakes before (not in the first epoch)        *)
(*   fixed   the fixed-margin perceptron with margin 0, which moves the      *)
(*           mistakes to the front of its visiting order                     *)
EXTENDS Linear, TLC, Json
CONSTANTS Kind, Dim, Grid, N, MaxIt, MaxUp, Variant, Emit
VARIABLES xs, ys, w, b, cnt, ord, i, e, s, steps, up, status
vars == <<xs, ys, w, b, cnt, ord, i, e, s, steps, up, status>>

Coord == (-Grid)..Grid
\* datasets up to the order of the points
Less(p, q) == IF p[1] # q[1] THEN p[1] < q[1] ELSE IF Dim = 1 THEN TRUE ELSE p[2] <= q[2]
Init == /\ xs \in [1..N -> [1..Dim -> Coord]] /\ ys \in [1..N -> {-1, 1}]
        /\ \A k \in 1..(N - 1) : Less(xs[k], xs[k + 1])
        /\ w = [k \in 1..Dim |-> 0] /\ b = 0 /\ cnt = [k \in 1..N |-> 0] /\ ord = [k \in 1..N |-> k]
        /\ i = 1 /\ e = 0 /\ s = 0 /\ steps = 0 /\ up = 0 /\ status = "run"
Mistake(p) == IF Variant = "lenient" THEN up = 0 \/ ys[p] * Plane(w, b, xs[p]) < 0
              ELSE ys[p] * Plane(w, b, xs[p]) <= 0
Swap(f, x, y) == [f EXCEPT ![x] = f[y], ![y] = f[x]]
\* after the visit of the point at place i
EndOfEpoch(errors, ups) ==
    /\ steps' = steps + 1
    /\ status' = IF errors = 0 \/ (Variant = "almost" /\ errors = 1) THEN "success"
                 ELSE IF steps + 1 > MaxIt \/ ups > MaxUp THEN "limit" ELSE "run"
    /\ i' = 1
    /\ e' = IF status' = "run" THEN 0 ELSE errors
Visit ==
    LET p == ord[i] IN
    IF Mistake(p) THEN
        /\ w' = [k \in 1..Dim |-> w[k] + ys[p] * xs[p][k]]
        /\ b' = IF Variant = "nobias" THEN b ELSE b + ys[p]
        /\ cnt' = [cnt EXCEPT ![p] = @ + 1] /\ up' = up + 1
        /\ IF Kind = "fixed"
           THEN LET k == IF i - 1 > s THEN s ELSE e IN
                /\ ord' = Swap(ord, k + 1, i) /\ s' = IF i - 1 > s THEN s + 1 ELSE s
           ELSE UNCHANGED <<ord, s>>
        /\ IF i = N THEN EndOfEpoch(e + 1, up + 1)
           ELSE i' = i + 1 /\ e' = e + 1 /\ UNCHANGED <<steps, status>>
    ELSE
        /\ UNCHANGED <<w, b, cnt, up, ord, s>>
        /\ IF i = N \/ (steps > 0 /\ e > 1 /\ (Kind = "plain" \/ i - 1 > s))
           THEN EndOfEpoch(e, up)
           ELSE i' = i + 1 /\ UNCHANGED <<e, steps, status>>
Next == status = "run" /\ Visit /\ UNCHANGED <<xs, ys>>
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

\* the weights are the labelled points of the mistakes
IsCombination == /\ w = Combination(cnt, xs, ys, Dim) /\ b = BiasOf(cnt, ys)
                 /\ SumSeq(cnt) = up
\* primal and dual form are the same function
PrimalIsDual == \A k \in 1..N : Plane(w, b, xs[k]) = Expansion(cnt, b, xs, ys, 0, 0, xs[k])
Permuted == {ord[k] : k \in 1..N} = 1..N
Sound == status = "success" => Separates(w, b, xs, ys)
Limits == steps <= MaxIt + 1 /\ up <= MaxUp + N
Ends == <>(status # "run")
\* with limits that do not bind, separable data is separated
Succeeds == <>(status # "run" /\ (GridSeparable(xs, ys, Dim, 2) => status = "success"))
\* the classical bound on the number of mistakes, for every separating plane of a grid
Witnesses == {p \in [1..Dim -> (-2)..2] \X ((-3)..3) : Separates(p[1], p[2], xs, ys)}
Smallest(S) == CHOOSE m \in S : \A v \in S : m <= v
Bounded == status # "run" => \A p \in Witnesses :
    LET m == Smallest({ys[k] * Plane(p[1], p[2], xs[k]) : k \in 1..N})
        R == -Smallest({-(Dot(xs[k], xs[k]) + 1) : k \in 1..N}) IN
    up * m * m <= R * (Dot(p[1], p[1]) + p[2] * p[2])
Printed == (Emit /\ status # "run") =>
    LET p == IF Witnesses = {} THEN <<<<>>, 0>> ELSE CHOOSE p \in Witnesses : TRUE IN
    PrintT("@H" \o ToJson([xs |-> xs, ys |-> ys, up |-> up, steps |-> steps, ok |-> status = "success", wit |-> p[1], witb |-> p[2]]))
=============================================================================
