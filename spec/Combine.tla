------------------------------- MODULE Combine -------------------------------
(* Combining the decisions of several learners: decomposition of a           *)
(* multi-class problem into binary ones, votes, weighted votes, boosting     *)
(* weights. Classes are positions in the class list.                         *)
EXTENDS Integers, Sequences, FiniteSets

RECURSIVE SumSeq(_, _)
SumSeq(f, n) == IF n = 0 THEN 0 ELSE f[n] + SumSeq(f, n - 1)
Sum(f) == SumSeq(f, Len(f))
\* classes in the order of their first point
RECURSIVE ClassListTo(_, _)
ClassListTo(ys, n) == IF n = 0 THEN <<>> ELSE
    LET before == ClassListTo(ys, n - 1) IN
    IF \E j \in DOMAIN before : before[j] = ys[n] THEN before ELSE Append(before, ys[n])
ClassList(ys) == ClassListTo(ys, Len(ys))
ArgMax(total) == {c \in DOMAIN total : \A d \in DOMAIN total : total[d] <= total[c]}

----------------------------------------------------------------------------
(* one versus one: dec[i][j] = 1 when the learner of the pair (i, j) says i  *)
Pairs(K) == {p \in (1..K) \X (1..K) : p[1] # p[2]}
PairVotes(dec, K) == [c \in 1..K |->
    Cardinality({j \in 1..K \ {c} : dec[c][j] = 1}) + Cardinality({i \in 1..K \ {c} : dec[i][c] # 1})]
OvoWinners(dec, K) == ArgMax(PairVotes(dec, K))
Positions(ys, c) == {i \in DOMAIN ys : ys[i] = c}
OvoSet(ys, p) == LET cl == ClassList(ys) IN [pos |-> Positions(ys, cl[p[1]]), neg |-> Positions(ys, cl[p[2]])]
OvaSet(ys, c) == LET cl == ClassList(ys) IN [pos |-> Positions(ys, cl[c]), neg |-> {i \in DOMAIN ys : ys[i] # cl[c]}]

----------------------------------------------------------------------------
(* votes: pred[m] is the class voted for by member m, w[m] its weight        *)
VoteTotals(pred, w, K) == [c \in 1..K |-> Sum([m \in DOMAIN pred |-> IF pred[m] = c THEN w[m] ELSE 0])]
VoteWinners(pred, w, K) == ArgMax(VoteTotals(pred, w, K))
Ones(n) == [m \in 1..n |-> 1]

----------------------------------------------------------------------------
(* boosting. Weights of the points are integers up to a common factor.       *)
(* miss[m] is the set of points member m gets wrong. The error of a member   *)
(* is the weight of its misses over the whole weight, its vote counts        *)
(* log((1 - err) / err * (K - 1)), and the weight of a missed point is       *)
(* multiplied with (1 - err) / err * (K - 1).                                *)
RECURSIVE Gcd(_, _)
Gcd(a, b) == IF b = 0 THEN a ELSE Gcd(b, a % b)
RECURSIVE GcdSeq(_, _)
GcdSeq(f, n) == IF n = 0 THEN 0 ELSE Gcd(f[n], GcdSeq(f, n - 1))
Reduced(f) == LET g == GcdSeq(f, Len(f)) IN IF g = 0 THEN f ELSE [i \in DOMAIN f |-> f[i] \div g]
MissWeight(w, S) == Sum([i \in DOMAIN w |-> IF i \in S THEN w[i] ELSE 0])
HitWeight(w, S) == Sum([i \in DOMAIN w |-> IF i \in S THEN 0 ELSE w[i]])
\* odds of member m as <<numerator, denominator>>
Odds(w, S, K) == <<HitWeight(w, S) * (K - 1), MissWeight(w, S)>>
\* a member that misses nothing leaves the weights alone
Reweigh(w, S, K) == IF S = {} THEN w ELSE
    Reduced([i \in DOMAIN w |-> IF i \in S THEN w[i] * Odds(w, S, K)[1] ELSE w[i] * Odds(w, S, K)[2]])
RECURSIVE WeightsAt(_, _, _)
WeightsAt(m, miss, K) == IF m = 1 THEN [i \in DOMAIN miss[1].w |-> 1]
                         ELSE Reweigh(WeightsAt(m - 1, miss, K), miss[m - 1].s, K)
AllOdds(miss, K) == [m \in DOMAIN miss |-> Odds(WeightsAt(m, miss, K), miss[m].s, K)]
\* total of class c as the product of the odds voting for it, on a common denominator
RECURSIVE Product(_, _)
Product(f, n) == IF n = 0 THEN 1 ELSE f[n] * Product(f, n - 1)
BoostScore(pred, odds, c) == Product([m \in DOMAIN pred |-> IF pred[m] = c THEN odds[m][1] ELSE odds[m][2]], Len(pred))
\* note: a class without votes has the empty product 1, i.e. the total 0
BoostWinners(pred, odds, K) == ArgMax([c \in 1..K |-> BoostScore(pred, odds, c)])
\* every score above fits into 32 bits
Small(odds) == \A m \in DOMAIN odds : odds[m][1] <= 1200 /\ odds[m][2] <= 1200 /\ odds[m][1] > 0 /\ odds[m][2] > 0
=============================================================================
