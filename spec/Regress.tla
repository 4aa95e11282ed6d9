------------------------------- MODULE Regress -------------------------------
(* Regression: the least mean square rule with a rate of 1/2^r, in exact     *)
(* integers with a common power of two as denominator, and the answers of    *)
(* the nearest neighbours.                                                   *)
EXTENDS Integers, Sequences, FiniteSets
Big == 1073741824
Lim == 16777216
Abs(v) == IF v < 0 THEN -v ELSE v
RECURSIVE SumF(_, _)
SumF(f, i) == IF i = 0 THEN 0 ELSE f[i] + SumF(f, i - 1)
Sum(f) == SumF(f, Len(f))
RECURSIVE Pow2(_)
Pow2(k) == IF k = 0 THEN 1 ELSE 2 * Pow2(k - 1)
\* a plane: weights and bias, all divided by 2^e; Lost once the numbers are too large to follow
Lost == [w |-> <<>>, b |-> 0, e |-> -1]
Plane(w, b) == [w |-> w, b |-> b, e |-> 0]
Fits(m) == m.e <= 20 /\ Abs(m.b) <= Lim /\ \A d \in DOMAIN m.w : Abs(m.w[d]) <= Lim
At(m, x) == m.b + Sum([d \in DOMAIN x |-> m.w[d] * x[d]])
\* the error at a point, divided by 2^e
Err(m, x, y) == y * Pow2(m.e) - At(m, x)
\* one step at point x with target y: every parameter moves along its gradient with the same rate
Step(m, x, y, r, faulty) ==
    IF m = Lost \/ ~Fits(m) \/ Abs(y) * Pow2(m.e) > Lim THEN Lost ELSE
    LET err == Err(m, x, y) s == Pow2(r) IN
    IF Abs(err) > Lim \div 8 \/ \E d \in DOMAIN x : Abs(m.w[d]) > Lim \div s THEN Lost ELSE
    [w |-> [d \in DOMAIN x |-> m.w[d] * s + err * x[d]], b |-> m.b * s + (IF faulty THEN s * err ELSE err), e |-> m.e + r]
\* the same plane with the smallest denominator
RECURSIVE Low(_)
Low(m) == IF m = Lost \/ m.e <= 0 \/ m.b % 2 # 0 \/ \E d \in DOMAIN m.w : m.w[d] % 2 # 0 THEN m
          ELSE Low([w |-> [d \in DOMAIN m.w |-> m.w[d] \div 2], b |-> m.b \div 2, e |-> m.e - 1])
RECURSIVE Pass(_, _, _, _, _, _)
Pass(m, xs, ys, r, i, faulty) == IF i > Len(xs) \/ m = Lost THEN m ELSE Pass(Low(Step(m, xs[i], ys[i], r, faulty)), xs, ys, r, i + 1, faulty)
RECURSIVE Passes(_, _, _, _, _)
Passes(m, xs, ys, r, k) == IF k = 0 \/ m = Lost THEN m ELSE Passes(Pass(m, xs, ys, r, 1, FALSE), xs, ys, r, k - 1)
\* squared distance to another plane with whole numbers, divided by 4^e
Far(m, w, b) == (m.b - b * Pow2(m.e)) * (m.b - b * Pow2(m.e)) + Sum([d \in DOMAIN w |-> (m.w[d] - w[d] * Pow2(m.e)) * (m.w[d] - w[d] * Pow2(m.e))])
Length(x) == 1 + Sum([d \in DOMAIN x |-> x[d] * x[d]])

\* ------------------------------------------------------- nearest neighbours
\* the sums of targets of k nearest points, however ties are broken
Near == INSTANCE Neighbours
Answers(ds, ys, k) == Near!CutSums(ds, ys, k)
Euclid(x, y) == Sum([d \in DOMAIN x |-> (x[d] - y[d]) * (x[d] - y[d])])
Manhattan(x, y) == Sum([d \in DOMAIN x |-> Abs(x[d] - y[d])])
=============================================================================
