----------------------------- MODULE FeatTrace ------------------------------
(* Judges recorded runs of feature selection.                                *)
EXTENDS TraceCommon
VARIABLE l
Abs(v) == IF v < 0 THEN -v ELSE v
SetOf(s) == {s[k] : k \in DOMAIN s}
SumSet(S, f(_)) == LET RECURSIVE G(_)
                       G(T) == IF T = {} THEN 0 ELSE LET t == CHOOSE t \in T : TRUE IN f(t) + G(T \ {t})
                   IN G(S)
Distinct(s) == \A i, j \in DOMAIN s : i < j => s[i] # s[j]
D(ev) == Len(ev.names)
Col(ev, name) == CHOOSE k \in DOMAIN ev.names : ev.names[k] = name
\* ------------------------------------------------------- the dataset returned
Subsequence(s, t) == /\ Distinct(s) /\ SetOf(s) \subseteq SetOf(t)
                     /\ \A i, j \in DOMAIN s : i < j =>
                          (CHOOSE k \in DOMAIN t : t[k] = s[i]) < (CHOOSE k \in DOMAIN t : t[k] = s[j])
Count(ev, y) == Cardinality({i \in DOMAIN ev.ys : ev.ys[i] = y})
ClassesRight(ev, r) == /\ Distinct(r.classes) /\ SetOf(r.classes) = SetOf(ev.ys) /\ Len(r.dist) = Len(r.classes)
                       /\ \A c \in DOMAIN r.classes : r.dist[c] = Count(ev, r.classes[c])
ResultBad(ev) ==
    LET r == ev.result IN
    Clause("C22", "the result has features that the data did not have", Subsequence(r.names, ev.names) /\ r.dim = Len(r.names)) \cup
    Clause("C22", "points, labels or ids were lost or changed", r.ids = ev.ids /\ r.ys = ev.ys /\ r.size = Len(ev.ids)) \cup
    Clause("C22", "class information does not match the points", ClassesRight(ev, r)) \cup
    (IF Subsequence(r.names, ev.names) /\ Len(r.xs) = Len(ev.xs) THEN
       Clause("C22", "a remaining column does not carry its original values",
              \A i \in DOMAIN ev.xs : r.xs[i] = [k \in DOMAIN r.names |-> ev.xs[i][Col(ev, r.names[k])]]) ELSE {}) \cup
    Clause("C22", "the learner was trained on other data than the selected columns", ev.right) \cup
    Clause("C22", "running the selection again gave another result", ev.same) \cup
    Clause("C22", "the input dataset was changed", ev.kept) \cup
    Clause("C24", "the input dataset was changed", ev.kept)
\* ------------------------------------------------------- scores, scaled by 100
Members(ev, pos) == {i \in DOMAIN ev.ys : (ev.ys[i] # -1) = pos}
Isqrt(v) == LET RECURSIVE N(_)
                N(x) == LET y == (x + v \div x) \div 2 IN IF y >= x THEN x ELSE N(y)
            IN IF v = 0 THEN 0 ELSE N(v)
\* sum of the column, and its scatter times the number of members
ColSum(ev, k, S) == SumSet(S, LAMBDA i : ev.xs[i][k])
Scatter(ev, k, S) == Cardinality(S) * SumSet(S, LAMBDA i : ev.xs[i][k] * ev.xs[i][k]) - ColSum(ev, k, S) * ColSum(ev, k, S)
Dev(ev, k, S) == LET n == Cardinality(S) IN Isqrt((10000 * Scatter(ev, k, S)) \div (n * (n - 1)))
Gap(ev, k) == LET P == Members(ev, TRUE)  M == Members(ev, FALSE) IN
    (100 * Abs(ColSum(ev, k, P) * Cardinality(M) - ColSum(ev, k, M) * Cardinality(P))) \div (Cardinality(P) * Cardinality(M))
Spread(ev, k) == Dev(ev, k, Members(ev, TRUE)) + Dev(ev, k, Members(ev, FALSE))
Infinite == 1000000000
Score(ev, k) == LET g == Gap(ev, k)  s == Spread(ev, k) IN
    IF g = 0 THEN 0 ELSE IF s = 0 THEN Infinite
    ELSE IF ev.fisher = 1 THEN (g * g) \div s ELSE (100 * g) \div s
\* a over b, with what rounding can hide
Slack(ev, k) == LET g == Gap(ev, k)  s == Spread(ev, k)  v == Score(ev, k) IN
    IF g = 0 \/ s = 0 THEN 2 ELSE 3 + (3 * v) \div g + (3 * v) \div s
NotBelow(a, b) == a.score >= Infinite \/ (b.score < Infinite /\ a.score + a.slack + b.slack >= b.score)
Scores(ev) == [k \in 1..D(ev) |-> [score |-> Score(ev, k), slack |-> Slack(ev, k)]]
RankBad(ev) ==
    LET r == ev.result
        sc == Scores(ev)
        n == Len(r.names)
        fail == {c \in DOMAIN ev.rets : ev.rets[c] = 0 /\ c > 1 /\ c <= Len(ev.seen)}
        stopped == fail # {}
    IN
    Clause("C22", "the number of features is not the requested one", ~stopped => n = ev.number) \cup
    Clause("C22", "after a failed training the last learned features were not returned",
           stopped => LET c == CHOOSE c \in fail : TRUE IN
                        c = Len(ev.seen) /\ r.names = ev.seen[c - 1]) \cup
    Clause("C22", "the learner did not see one feature less each time",
           /\ ev.seen # <<>> /\ ev.seen[1] = ev.names
           /\ \A c \in 2..Len(ev.seen) : Len(ev.seen[c]) = D(ev) - (c - 1) /\ SetOf(ev.seen[c]) \subseteq SetOf(ev.seen[c - 1])) \cup
    (IF SetOf(r.names) \subseteq SetOf(ev.names) THEN
       Clause("C22", "a feature was kept although an eliminated one has a higher score",
              \A k \in DOMAIN ev.names : ev.names[k] \notin SetOf(r.names) =>
                 \A j \in DOMAIN r.names : NotBelow(sc[Col(ev, r.names[j])], sc[k])) ELSE {})
\* ------------------------------------------------------- recursive elimination
Weight(ev, c, name) == Abs(ev.weights[IF c < Len(ev.weights) THEN c ELSE Len(ev.weights)][Col(ev, name)])
Err(ev, c) == LET e == ev.errs[IF c < Len(ev.errs) THEN c ELSE Len(ev.errs)] IN (100 * e) \div Len(ev.ids)
Gone(ev, c) == SetOf(ev.seen[c]) \ SetOf(ev.seen[c + 1])
RfeStep(ev, c) ==
    LET left == Len(ev.seen[c]) - ev.final IN
    /\ SetOf(ev.seen[c + 1]) \subseteq SetOf(ev.seen[c])
    /\ Cardinality(Gone(ev, c)) = (IF ev.jump < left THEN ev.jump ELSE left)
Failing(ev) == {c \in DOMAIN ev.rets : ev.rets[c] = 0 /\ c <= Len(ev.seen)}
Removed(ev, c) == D(ev) - Len(ev.seen[c])
\* trainings after which the error is measured; the first one is the reference
Measured(ev, c) == ev.qtde > 0 /\ (c = 1 \/ Removed(ev, c) % ev.cvjump = 0)
LastMeasured(ev, c) == LET S == {m \in 2..c : Measured(ev, m)} IN
    IF S = {} THEN 0 ELSE CHOOSE m \in S : \A k \in S : k <= m
Grown(ev, c) == LET m == LastMeasured(ev, c) IN IF m = 0 THEN -(Err(ev, 1)) ELSE Err(ev, m) - Err(ev, 1)
RfeBad(ev) ==
    LET r == ev.result
        n == Len(ev.seen)
        failed == Failing(ev) # {}
        ended == ~failed
    IN
    IF n = 0 \/ \E c \in 1..n : ~(SetOf(ev.seen[c]) \subseteq SetOf(ev.names)) \/ ~Distinct(ev.seen[c])
    THEN Clause("C22", "the learner was trained on other data than the selected columns", FALSE) ELSE
    Clause("C22", "the first training did not see every feature", ev.seen[1] = ev.names) \cup
    Clause("C22", "a step did not eliminate the requested number of features", \A c \in 1..(n - 1) : RfeStep(ev, c)) \cup
    Clause("C22", "a feature was eliminated although a kept one has a smaller weight",
           \A c \in 1..(n - 1) : \A f \in Gone(ev, c), g \in SetOf(ev.seen[c + 1]) : Weight(ev, c, f) <= Weight(ev, c, g)) \cup
    Clause("C22", "elimination went on after a failed training", failed => Failing(ev) = {n}) \cup
    Clause("C22", "after a failed training the last learned features were not returned",
           failed => r.names = ev.seen[IF n = 1 THEN 1 ELSE n - 1]) \cup
    Clause("C22", "the number of features is not the requested one",
           ended => IF ev.qtde > 0 /\ Grown(ev, n) > 0 /\ (ev.qtde * Grown(ev, n)) > ev.limit THEN TRUE ELSE Len(r.names) = ev.final) \cup
    Clause("C22", "the features returned are not those learned last", ended => r.names = ev.seen[n]) \cup
    Clause("C22", "elimination went on although the error had grown beyond the limit",
           \A c \in 2..(n - 1) : ev.qtde > 0 => Grown(ev, c) <= ev.limit)
\* ------------------------------------------------------- best-first search
AosBad(ev) ==
    LET r == ev.result IN
    Clause("C22", "fewer features than requested are left", Len(r.names) >= ev.final) \cup
    Clause("C22", "the number of features is not the requested one", ev.failed = 0 => Len(r.names) = ev.final) \cup
    Clause("C22", "the features returned were never learned",
           \E c \in DOMAIN ev.seen : ev.seen[c] = r.names)
Failed(ev) ==
    IF ev.e = "crash" THEN CrashBad(ev) ELSE IF Has(ev, "exc") THEN ExcBad(ev) ELSE IF Has(ev, "skip") THEN {} ELSE
    CASE ev.e = "rank" -> ResultBad(ev) \cup RankBad(ev)
      [] ev.e = "rfe" -> ResultBad(ev) \cup RfeBad(ev)
      [] ev.e = "aos" -> ResultBad(ev) \cup AosBad(ev)
      [] OTHER -> {}
TraceInit == l = 1 /\ TLCSet(1, 0)
TraceNext ==
    /\ l <= Len(Trace)
    /\ LET ev == Trace[l] IN IF ev.e = "begin" THEN TRUE ELSE Judge(ev, Failed(ev))
    /\ l' = l + 1
TraceSpec == TraceInit /\ [][TraceNext]_l
TraceAccepted == Accepted
=============================================================================
