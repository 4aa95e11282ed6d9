----------------------------- MODULE Neighbours -----------------------------
(* Distances of integer points, nearest neighbours as a relation (ties may   *)
(* be broken in any way), votes and means over them.                         *)
EXTENDS Integers, Sequences, FiniteSets, TLC

Abs(a) == IF a < 0 THEN -a ELSE a
Max2(a, b) == IF a > b THEN a ELSE b
RECURSIVE SumTo(_, _)
SumTo(f, n) == IF n = 0 THEN 0 ELSE f[n] + SumTo(f, n - 1)
RECURSIVE MaxTo(_, _)
MaxTo(f, n) == IF n = 0 THEN 0 ELSE Max2(f[n], MaxTo(f, n - 1))
\* Euclidean distances are compared through their squares
Dist(metric, a, b) ==
    CASE metric = "e" -> SumTo([i \in DOMAIN a |-> (a[i] - b[i]) * (a[i] - b[i])], Len(a))
      [] metric = "m" -> SumTo([i \in DOMAIN a |-> Abs(a[i] - b[i])], Len(a))
      [] metric = "c" -> MaxTo([i \in DOMAIN a |-> Abs(a[i] - b[i])], Len(a))

\* ds: distance of every training point (a sequence), k <= Len(ds)
Cut(ds, k) == CHOOSE t \in {ds[i] : i \in DOMAIN ds} :
    /\ Cardinality({i \in DOMAIN ds : ds[i] < t}) < k
    /\ Cardinality({i \in DOMAIN ds : ds[i] <= t}) >= k
Closer(ds, k) == {i \in DOMAIN ds : ds[i] < Cut(ds, k)}
Ties(ds, k) == {i \in DOMAIN ds : ds[i] = Cut(ds, k)}
RECURSIVE Choices(_, _)
Choices(S, n) ==
    IF n = 0 THEN {{}} ELSE IF Cardinality(S) < n THEN {} ELSE
    LET x == CHOOSE x \in S : TRUE IN
    Choices(S \ {x}, n) \cup {C \cup {x} : C \in Choices(S \ {x}, n - 1)}
\* all sets of k nearest points
NearestSets(ds, k) == {Closer(ds, k) \cup C : C \in Choices(Ties(ds, k), k - Cardinality(Closer(ds, k)))}

Votes(S, ys, c) == Cardinality({i \in S : ys[i] = c})
Modes(S, ys) == {c \in {ys[i] : i \in S} : \A d \in {ys[i] : i \in S} : Votes(S, ys, d) <= Votes(S, ys, c)}
Predictions(ds, ys, k) == UNION {Modes(S, ys) : S \in NearestSets(ds, k)}
RECURSIVE SumOver(_, _)
SumOver(S, ys) == IF S = {} THEN 0 ELSE LET x == CHOOSE x \in S : TRUE IN ys[x] + SumOver(S \ {x}, ys)
Sums(ds, ys, k) == {SumOver(S, ys) : S \in NearestSets(ds, k)}

(* The same answers without naming the sets, for many points. *)
Sorted(ds) == SortSeq(ds, LAMBDA a, b : a < b)
\* c wins when as many of the tied points as possible are its own and the others can be taken from classes that stay behind
Least(a, b) == IF a < b THEN a ELSE b
Wins(ds, ys, k, c) ==
    LET cut == Sorted(ds)[k]
        near == {i \in DOMAIN ds : ds[i] < cut}
        tied == {i \in DOMAIN ds : ds[i] = cut}
        need == k - Cardinality(near)
        In(S, d) == Cardinality({i \in S : ys[i] = d})
        own == Least(need, In(tied, c))
        most == In(near, c) + own
        others == {ys[i] : i \in near \cup tied} \ {c}
        room == SumOver(others, [d \in others |-> Least(In(tied, d), IF most > In(near, d) THEN most - In(near, d) ELSE 0)]) IN
    most > 0 /\ (\A d \in others : In(near, d) <= most) /\ room >= need - own
\* sums of m of the values of a sequence
RECURSIVE SumsOfSome(_, _, _)
SumsOfSome(vs, n, m) == IF m = 0 THEN {0} ELSE IF n < m THEN {} ELSE SumsOfSome(vs, n - 1, m) \cup {vs[n] + s : s \in SumsOfSome(vs, n - 1, m - 1)}
CutSums(ds, ys, k) ==
    LET cut == Sorted(ds)[k]
        near == {i \in DOMAIN ds : ds[i] < cut}
        tied == SelectSeq([i \in DOMAIN ds |-> <<ds[i], ys[i]>>], LAMBDA p : p[1] = cut) IN
    {SumOver(near, ys) + s : s \in SumsOfSome([j \in DOMAIN tied |-> tied[j][2]], Len(tied), k - Cardinality(near))}

\* partners of z for over-sampling: the nearest other points; of points at the same distance one counts
Levels(ds) == {ds[i] : i \in DOMAIN ds} \ {0}
Partner(ds, k, i) == ds[i] > 0 /\ Cardinality({d \in Levels(ds) : d < ds[i]}) < k
Partners(ds, k) == LET ls == Levels(ds) ns == {d \in ls : Cardinality({e \in ls : e < d}) < k} IN {i \in DOMAIN ds : ds[i] \in ns}
PartnerCount(ds, k) == IF Cardinality(Levels(ds)) < k THEN Cardinality(Levels(ds)) ELSE k
=============================================================================
