-------------------------------- MODULE KMeans --------------------------------
(* Lloyd's iteration in exact rationals: a centre is a sum of points and     *)
(* their number. Shared by the model of the training loop and the judge.     *)
EXTENDS Integers, Sequences, FiniteSets

RECURSIVE SumF(_, _, _)
SumF(f, i, n) == IF i > n THEN 0 ELSE f[i] + SumF(f, i + 1, n)
Total(f) == SumF(f, 1, Len(f))
RECURSIVE ProdF(_, _, _)
ProdF(f, i, n) == IF i > n THEN 1 ELSE f[i] * ProdF(f, i + 1, n)
Dim(pts) == Len(pts[1])
RECURSIVE Gcd(_, _)
Gcd(a, b) == IF b = 0 THEN IF a < 0 THEN -a ELSE a ELSE Gcd(b, a % b)
RECURSIVE GcdF(_, _, _)
GcdF(s, i, g) == IF i > Len(s) THEN g ELSE GcdF(s, i + 1, Gcd(s[i], g))
\* the same centre is always written the same way
Centre(s, n) == LET g == GcdF(s, 1, n) IN [s |-> [i \in DOMAIN s |-> s[i] \div g], n |-> n \div g]
At(pts, i) == Centre(pts[i], 1)
RECURSIVE SumSet(_, _, _)
SumSet(pts, S, d) == IF S = {} THEN 0 ELSE LET i == CHOOSE i \in S : TRUE IN pts[i][d] + SumSet(pts, S \ {i}, d)
MeanOf(pts, S) == Centre([d \in 1..Dim(pts) |-> SumSet(pts, S, d)], Cardinality(S))

\* squared distance of point x and centre c is Num / Den
Num(x, c) == Total([d \in DOMAIN x |-> (c.n * x[d] - c.s[d]) * (c.n * x[d] - c.s[d])])
Den(c) == c.n * c.n
Nearest(x, cen) == {j \in DOMAIN cen : \A k \in DOMAIN cen : Num(x, cen[j]) * Den(cen[k]) <= Num(x, cen[k]) * Den(cen[j])}
Low(S) == CHOOSE j \in S : \A k \in S : j <= k

\* every assignment to nearest centres, however ties are broken
Assignments(pts, cen) ==
    LET near == [i \in DOMAIN pts |-> Nearest(pts[i], cen)] IN
    IF \A i \in DOMAIN pts : Cardinality(near[i]) = 1 THEN {[i \in DOMAIN pts |-> Low(near[i])]}
    ELSE {a \in [DOMAIN pts -> DOMAIN cen] : \A i \in DOMAIN pts : a[i] \in near[i]}
Moved(pts, cen, a) ==
    [j \in DOMAIN cen |-> LET S == {i \in DOMAIN pts : a[i] = j} IN IF S = {} THEN cen[j] ELSE MeanOf(pts, S)]
Steps(pts, cen) == {Moved(pts, cen, a) : a \in Assignments(pts, cen)}

Distinct(pts) == \E i, j \in DOMAIN pts : pts[i] # pts[j]
\* where training may start: any points of the data; kmeanspp never picks the place of the previous centre
Starts(pts, k, plus) ==
    {[j \in 1..k |-> At(pts, f[j])] : f \in {f \in [1..k -> DOMAIN pts] :
        (plus /\ Distinct(pts)) => \A j \in 2..k : pts[f[j]] # pts[f[j - 1]]}}
RECURSIVE Reach(_, _, _)
Reach(pts, done, new) ==
    IF new = {} THEN done
    ELSE Reach(pts, done \cup new, (UNION {Steps(pts, c) : c \in new}) \ (done \cup new))
Reachable(pts, k, plus) == Reach(pts, {}, Starts(pts, k, plus))
Final(pts, cen) == cen \in Steps(pts, cen)
Results(pts, k, plus) == {c \in Reachable(pts, k, plus) : Final(pts, c)}
Untied(pts, R) == \A c \in R : \A i \in DOMAIN pts : Cardinality(Nearest(pts[i], c)) = 1
\* results that some start leads to without a tie on the way: training ends there whenever it takes that start
Certain(pts, k, plus) ==
    UNION {LET R == Reach(pts, {}, {c}) IN IF Untied(pts, R) THEN {d \in R : Final(pts, d)} ELSE {} : c \in Starts(pts, k, plus)}
=============================================================================
