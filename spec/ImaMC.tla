------------------------------- MODULE ImaMC -------------------------------
(* Incremental-margin training over an abstract fixed-margin oracle: planes  *)
(* have weights in {-1,0,1} (norm 1 in the maximum norm) and a bias in half  *)
(* units, so margins are counted in half units. The oracle is asked for a    *)
(* margin and returns some plane with at least that margin on both sides, or *)
(* gives up (it has to when there is none).                                  *)
EXTENDS Linear, TLC
CONSTANTS Dim, Grid, N, Variant
VARIABLES xs, ys, gamma, best, margin, rounds, status
vars == <<xs, ys, gamma, best, margin, rounds, status>>
None == <<>>
Planes == {<<w, b>> : w \in [1..Dim -> {-1, 0, 1}] \ {[k \in 1..Dim |-> 0]}, b \in (-(4 * Grid * Dim))..(4 * Grid * Dim)}
\* functional value in half units
F(p, i) == 2 * Dot(p[1], xs[i]) + p[2]
Side(p, y) == LET S == {y * F(p, i) : i \in {j \in DOMAIN xs : ys[j] = y}} IN CHOOSE m \in S : \A v \in S : m <= v
Accepts(p, g) == \A i \in DOMAIN xs : LET v == ys[i] * F(p, i) IN v > 0 /\ 2 * v >= g
Found(g) == {p \in Planes : Accepts(p, g)}
Less(p, q) == IF p[1] # q[1] THEN p[1] < q[1] ELSE IF Dim = 1 THEN TRUE ELSE p[2] <= q[2]
Init == /\ xs \in [1..N -> [1..Dim -> (-Grid)..Grid]] /\ ys \in [1..N -> {-1, 1}]
        /\ \A k \in 1..(N - 1) : Less(xs[k], xs[k + 1])
        /\ {ys[k] : k \in 1..N} = {-1, 1}
        /\ gamma = 0 /\ best = None /\ margin = 0 /\ rounds = 0 /\ status = "run"
\* gamma counts quarter units: the next one is the mid margin, but at least a
\* little (here one quarter of the smallest unit) more than the margin reached
NextGamma(p) == IF Variant = "stay" THEN gamma
                ELSE Max2(Side(p, 1) + Side(p, -1), 2 * (IF Side(p, 1) < Side(p, -1) THEN Side(p, 1) ELSE Side(p, -1)) + 1)
Min2(a, b) == IF a < b THEN a ELSE b
Accept(p) == /\ gamma' = NextGamma(p) /\ best' = p /\ margin' = Min2(Side(p, 1), Side(p, -1))
             /\ rounds' = rounds + 1 /\ status' = "run"
GiveUp == /\ status' = IF best = None THEN "failed" ELSE "done"
          /\ best' = IF Variant = "last" THEN CHOOSE p \in Planes : TRUE ELSE best
          /\ UNCHANGED <<gamma, margin, rounds>>
Next == /\ status = "run" /\ UNCHANGED <<xs, ys>>
        /\ \/ \E p \in Found(gamma) : Accept(p)
           \/ Found(gamma) = {} /\ GiveUp
           \/ Variant = "limits" /\ GiveUp
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
Separating == status = "done" => \A i \in DOMAIN xs : ys[i] * F(best, i) > 0
MarginOfBest == best # None => margin = Min2(Side(best, 1), Side(best, -1))
Increases == [][best # None /\ status' = "run" => 2 * margin' > 2 * margin]_vars
Ends == <>(status # "run")
\* an oracle that only gives up when it has to: no plane has a larger margin
Maximal == (status = "done" /\ Variant # "limits") =>
             \A p \in Planes : (\A i \in DOMAIN xs : ys[i] * F(p, i) > 0) => Min2(Side(p, 1), Side(p, -1)) <= margin
\* twice the margin is at most the distance of any two points of different classes
Bounded == status = "done" => \A i, j \in DOMAIN xs : ys[i] = 1 /\ ys[j] = -1 =>
             2 * margin <= 2 * SumSeq([k \in 1..Dim |-> Abs(xs[i][k] - xs[j][k])])
=============================================================================
