------------------------------ MODULE RegressMC ------------------------------
(* Training on every small dataset whose targets lie on a plane: every step  *)
(* of a small enough rate brings the plane nearer to that one.               *)
EXTENDS Regress, TLC, Json
CONSTANTS Points, Span, Dim, Rate, Steps, Variant, Emit
VARIABLES xs, goal, m, near, i
vars == <<xs, goal, m, near, i>>
Coord == (-Span)..Span
Vectors == [1..Dim -> Coord]
ys == [k \in DOMAIN xs |-> goal.b + Sum([d \in 1..Dim |-> goal.w[d] * xs[k][d]])]
Small == \A k \in DOMAIN xs : Length(xs[k]) <= 2 * Pow2(Rate)
Init == /\ xs \in [1..Points -> Vectors] /\ goal \in [w : [1..Dim -> (-1)..1], b : {0, 2}]
        /\ m = Plane([d \in 1..Dim |-> 0], 0) /\ i = 0 /\ near = <<0, 0>>
Next == /\ i < Steps /\ m # Lost
        /\ LET k == 1 + (i % Points) n == Low(Step(m, xs[k], ys[k], Rate, Variant = "bias")) IN
           /\ m' = n
           \* distances before and after, with the same denominator
           /\ near' = (IF n = Lost \/ n.e > 12 \/ m.e > 12 \/ ~Small THEN <<0, 0>> ELSE <<Far(m, goal.w, goal.b) * (IF n.e > m.e THEN Pow2(2 * (n.e - m.e)) ELSE 1),
                                                        Far(n, goal.w, goal.b) * (IF m.e > n.e THEN Pow2(2 * (m.e - n.e)) ELSE 1)>>)
        /\ i' = i + 1 /\ UNCHANGED <<xs, goal>>
Spec == Init /\ [][Next]_vars
Nearer == (Small /\ m # Lost) => near[2] <= near[1]
\* a plane that has the right answers stays
Stays == [][(m' # Lost /\ \A k \in DOMAIN xs : Err(m, xs[k], ys[k]) = 0) => m' = m]_vars
Printed == (Emit /\ i = 1) => PrintT("@H" \o ToJson([xs |-> xs, ys |-> ys, w |-> goal.w, b |-> goal.b]))
=============================================================================
