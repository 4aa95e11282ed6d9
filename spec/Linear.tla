------------------------------- MODULE Linear -------------------------------
(* Hyperplanes, kernel expansions and what it means to separate. Points are  *)
(* integer vectors xs[i] with labels ys[i] in {-1, 1}; weights are counted   *)
(* in units of the learning rate.                                            *)
EXTENDS Integers, Sequences, FiniteSets

Abs(a) == IF a < 0 THEN -a ELSE a
Max2(a, b) == IF a > b THEN a ELSE b
RECURSIVE SumUpTo(_, _)
SumUpTo(f, n) == IF n = 0 THEN 0 ELSE f[n] + SumUpTo(f, n - 1)
SumSeq(f) == SumUpTo(f, Len(f))
Dot(a, b) == SumSeq([k \in DOMAIN a |-> a[k] * b[k]])
RECURSIVE Pow(_, _)
Pow(a, n) == IF n = 0 THEN 1 ELSE a * Pow(a, n - 1)
\* kernels with exact values: 0 inner product, 1 polynomial of degree param
KernelVal(type, param, a, b) ==
    IF type = 1 /\ param > 1 THEN Pow(Dot(a, b), param) ELSE Dot(a, b)

Plane(w, b, x) == Dot(w, x) + b
Separates(w, b, xs, ys) == \A i \in DOMAIN xs : ys[i] * Plane(w, b, xs[i]) > 0
\* sum of c[i] y[i] x[i] and of c[i] y[i]
Combination(c, xs, ys, dim) == [k \in 1..dim |-> SumSeq([i \in DOMAIN xs |-> c[i] * ys[i] * xs[i][k]])]
BiasOf(c, ys) == SumSeq([i \in DOMAIN ys |-> c[i] * ys[i]])
Expansion(c, b, xs, ys, type, param, x) == b + SumSeq([i \in DOMAIN xs |-> c[i] * ys[i] * KernelVal(type, param, xs[i], x)])
\* some normal vector of the grid separates (sufficient for separability)
GridSeparable(xs, ys, dim, G) ==
    \E w \in [1..dim -> (-G)..G] :
        LET v == [i \in DOMAIN xs |-> Dot(w, xs[i])] IN
        \A i, j \in DOMAIN xs : (ys[i] = 1 /\ ys[j] = -1) => v[i] > v[j]
=============================================================================
