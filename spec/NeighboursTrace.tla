--------------------------- MODULE NeighboursTrace ---------------------------
(* Judges recorded distance matrices, predictions and over-sampled datasets. *)
EXTENDS Neighbours, TraceCommon
VARIABLE l

N(ev) == Len(ev.ids)
At(ev, id) == CHOOSE i \in DOMAIN ev.ids : ev.ids[i] = id
Entry(ev, a, b) == Dist(ev.metric, ev.xs[At(ev, a)], ev.xs[At(ev, b)])
MatBad(ev) ==
    IF Has(ev, "died") THEN {"computing the matrix failed: " \o ev.died} ELSE
    Clause("C12", "the matrix does not have one row per point", Len(ev.rows) = N(ev)) \cup
    (IF Len(ev.rows) # N(ev) THEN {} ELSE
     LET Wide(a) == IF ev.tri THEN a ELSE N(ev) IN
     Clause("C12", "a row of the matrix is too short", \A a \in 1..N(ev) : Len(ev.rows[a]) >= Wide(a)) \cup
     (IF \E a \in 1..N(ev) : Len(ev.rows[a]) < Wide(a) THEN {} ELSE
      Clause("C12", "an entry of the matrix is not the distance of its two points",
             \A a \in 1..N(ev) : \A b \in 1..Wide(a) : a # b => ev.rows[a][b] = Entry(ev, a, b)) \cup
      Clause("C12", "a diagonal entry of the matrix is not zero", \A a \in 1..N(ev) : ev.rows[a][a] = 0)) \cup
     Clause("C12", "the matrix does not know whether it is triangular", ev.isTri = ev.tri))

\* training points are the positions ev.train; every point of the dataset is a query
TrainD(ev, q) == [i \in DOMAIN ev.train |-> Dist(ev.metric, ev.xs[ev.train[i]], ev.xs[q])]
TrainY(ev) == [i \in DOMAIN ev.train |-> ev.ys[ev.train[i]]]
KnnBad(ev) ==
    Clause("C13", "not every query was answered", Len(ev.pred) = Len(ev.xs)) \cup
    Clause("C13", "a predicted class is not the majority among k closest points",
           \A q \in DOMAIN ev.pred : Wins(TrainD(ev, q), TrainY(ev), ev.k, ev.pred[q])) \cup
    Clause("C13", "predictions changed the training data", ev.kept) \cup
    Clause("C24", "predicting changed the caller's data", ev.kept) \cup
    Clause("C24", "repeating a prediction gave another result", ev.again = ev.pred)
KnnrBad(ev) ==
    Clause("C13", "a predicted value is not the mean target of k closest points",
           \A q \in DOMAIN ev.sum : ev.sum[q] \in CutSums(TrainD(ev, q), TrainY(ev), ev.k)) \cup
    Clause("C13", "predictions changed the training data", ev.kept) \cup
    Clause("C24", "predicting changed the caller's data", ev.kept) \cup
    Clause("C24", "repeating a prediction gave another result", ev.again = ev.sum)

----------------------------------------------------------------------------
Count(ev, c) == Cardinality({i \in DOMAIN ev.ys : ev.ys[i] = c})
Smallest(ev) == {c \in {ev.ys[i] : i \in DOMAIN ev.ys} : \A d \in {ev.ys[i] : i \in DOMAIN ev.ys} : Count(ev, c) <= Count(ev, d)}
Members(ev, c) == {i \in DOMAIN ev.ys : ev.ys[i] = c}
SeqOf(S) == LET F[T \in SUBSET S] == IF T = {} THEN <<>> ELSE LET x == CHOOSE x \in T : \A y \in T : x <= y IN <<x>> \o F[T \ {x}] IN F[S]
\* synthetic coordinates are recorded in thousandths
OnSegment(s, a, b) ==
    LET F == 1000 IN
    /\ \A i \in DOMAIN s : LET lo == IF a[i] < b[i] THEN a[i] ELSE b[i]
                               hi == IF a[i] < b[i] THEN b[i] ELSE a[i] IN lo * F - 1 <= s[i] /\ s[i] <= hi * F + 1
    /\ \A i, j \in DOMAIN s :
         Abs((s[i] - F * a[i]) * (b[j] - a[j]) - (s[j] - F * a[j]) * (b[i] - a[i])) <= Abs(b[j] - a[j]) + Abs(b[i] - a[i])
RECURSIVE Ordered(_)
Ordered(S) == IF S = {} THEN <<>> ELSE LET x == CHOOSE x \in S : \A y \in S : x <= y IN <<x>> \o Ordered(S \ {x})
\* distances of minority point z to the minority class, as a sequence over Ordered(Members)
PartD(ev, ms, z) == [i \in DOMAIN ms |-> Dist(ev.metric, ev.xs[ms[i]], ev.xs[z])]
\* can the added points be explained as at most `most` per minority point z, each on a segment to a partner of z?
PartnersBy(ev, ms) == [z \in {ms[i] : i \in DOMAIN ms} |-> {ms[i] : i \in Partners(PartD(ev, ms, z), ev.k)}]
CountsBy(ev, ms) == [z \in {ms[i] : i \in DOMAIN ms} |-> PartnerCount(PartD(ev, ms, z), ev.k)]
Explains(ev, by, z, s) == \E p \in by[z] : OnSegment(s, ev.xs[z], ev.xs[p])
SmoteBad(ev) ==
    LET n == Len(ev.ys)
        m == Len(ev.after)
        added == {i \in 1..m : i > n} IN
    Clause("C21", "over-sampling lost points", m >= n) \cup
    (IF m < n THEN {} ELSE
     Clause("C21", "over-sampling changed, moved or removed an original point",
            \A i \in 1..n : ev.after[i].x = [j \in DOMAIN ev.xs[i] |-> 1000 * ev.xs[i][j]] /\ ev.after[i].y = ev.ys[i] /\ ev.after[i].id = ev.ids[i]) \cup
     Clause("C21", "an added point does not have the label of the smallest class",
            \E c \in Smallest(ev) : \A i \in added : ev.after[i].y = c) \cup
     Clause("C21", "the added points are not on segments between minority points and their nearest minority neighbours",
            \E c \in Smallest(ev) : LET by == PartnersBy(ev, Ordered(Members(ev, c))) IN
               \A i \in added : ev.after[i].y = c => \E z \in Members(ev, c) : Explains(ev, by, z, ev.after[i].x)) \cup
     Clause("C21", "the number of added points is wrong",
            \E c \in Smallest(ev) : LET ms == Ordered(Members(ev, c)) by == PartnersBy(ev, ms) counts == CountsBy(ev, ms) IN
               /\ Cardinality(added) = SumTo([i \in DOMAIN ms |-> counts[ms[i]]], Len(ms))
               \* every minority point has as many added points as partners: a system of representatives exists for each point alone
               /\ \A z \in Members(ev, c) :
                    Cardinality({i \in added : Explains(ev, by, z, ev.after[i].x)}) >= counts[z]))

Failed(ev) ==
    IF ev.e = "crash" THEN CrashBad(ev) ELSE IF Has(ev, "exc") THEN ExcBad(ev) ELSE
    CASE ev.e = "mat" -> MatBad(ev)
      [] ev.e = "knn" -> KnnBad(ev)
      [] ev.e = "knnr" -> KnnrBad(ev)
      [] ev.e \in {"smote", "bsmote"} -> SmoteBad(ev)
      [] OTHER -> {}

TraceInit == l = 1 /\ TLCSet(1, 0)
TraceNext ==
    /\ l <= Len(Trace)
    /\ LET ev == Trace[l] IN IF ev.e = "begin" THEN TRUE ELSE Judge(ev, Failed(ev))
    /\ l' = l + 1
TraceSpec == TraceInit /\ [][TraceNext]_l
TraceAccepted == Accepted
=============================================================================
