----------------------------- MODULE KMeansTrace -----------------------------
(* Judges recorded trainings of k-means. Centres are recorded in thousandths *)
(* (or in sixtieths, where results are compared exactly).                    *)
EXTENDS KMeans, TraceCommon
VARIABLE l
Abs(v) == IF v < 0 THEN -v ELSE v
RECURSIVE MaxF(_, _)
MaxF(f, i) == IF i = 0 THEN 0 ELSE LET m == MaxF(f, i - 1) IN IF f[i] > m THEN f[i] ELSE m
Known(v) == Abs(v) < 1073741824
Diff(x, c) == [d \in DOMAIN x |-> Abs(1000 * x[d] - c[d])]
D(m, x, c) == LET f == Diff(x, c) IN
    CASE m = "e" -> Total([d \in DOMAIN f |-> f[d] * f[d]])
      [] m = "m" -> Total(f)
      [] OTHER -> MaxF(f, Len(f))
Slack(m, x, c) == IF m = "e" THEN Total(Diff(x, c)) + 2 * Len(x) ELSE 2 * Len(x)
\* j (from 1) is a nearest centre of x, as far as rounded centres can tell
Near(m, x, cen, j) == \A k \in DOMAIN cen : D(m, x, cen[j]) <= D(m, x, cen[k]) + Slack(m, x, cen[j]) + Slack(m, x, cen[k])

Where(cl, i) == {<<j, p>> \in UNION {{j} \X DOMAIN cl[j] : j \in DOMAIN cl} : cl[j][p] = i}
Size(cl) == Total([j \in DOMAIN cl |-> Len(cl[j])])
Disjoint(cl, n) == Size(cl) = n /\ \A i \in 1..n : Cardinality(Where(cl, i)) = 1
Members(cl, j) == {cl[j][p] : p \in DOMAIN cl[j]}
IsMean(xs, S, c) == \A d \in DOMAIN c :
    LET v == 1000 * SumSet(xs, S, d) - Cardinality(S) * c[d] IN Abs(v) <= Cardinality(S)
Inside(xs, c) == \A d \in DOMAIN c : \E i, j \in DOMAIN xs : 1000 * xs[i][d] - 1 <= c[d] /\ c[d] <= 1000 * xs[j][d] + 1
Places(xs) == {xs[i] : i \in DOMAIN xs}

KmBad(ev) ==
    LET n == Len(ev.xs)
        fine == Len(ev.cen) = ev.k /\ \A j \in DOMAIN ev.cen : Len(ev.cen[j]) = Len(ev.xs[1]) /\ \A d \in DOMAIN ev.cen[j] : Known(ev.cen[j][d])
        whole == Len(ev.cl) = ev.k /\ Disjoint(ev.cl, n) IN
    Clause("C20", "training failed", ev.ok) \cup
    Clause("C20", "there are not k centres of finite coordinates", fine) \cup
    Clause("C20", "some point is not in exactly one of k clusters", whole) \cup
    Clause("C20", "asking for the clusters again gave others", ev.cl2 = ev.cl) \cup
    Clause("C20", "the data changed", ev.kept) \cup
    Clause("C24", "training changed the caller's data", ev.kept) \cup
    Clause("C24", "asking for clusters or answers again gave others", ev.cl2 = ev.cl /\ ev.near2 = ev.near) \cup
    (IF ~(fine /\ whole) THEN {} ELSE
     Clause("C20", "a centre is not among the data", \A j \in DOMAIN ev.cen : Inside(ev.xs, ev.cen[j])) \cup
     Clause("C20", "a point is in a cluster whose centre is not nearest", \A j \in DOMAIN ev.cl : \A i \in Members(ev.cl, j) : Near(ev.metric, ev.xs[i], ev.cen, j)) \cup
     Clause("C20", "evaluating did not return a nearest centre",
            Len(ev.near) = Len(ev.qs) /\ \A q \in DOMAIN ev.near : (ev.near[q] + 1) \in DOMAIN ev.cen /\ Near(ev.metric, ev.qs[q], ev.cen, ev.near[q] + 1)) \cup
     Clause("C20", "evaluating a point of the data did not return a nearest centre",
            Len(ev.own) = n /\ \A i \in DOMAIN ev.own : (ev.own[i] + 1) \in DOMAIN ev.cen /\ Near(ev.metric, ev.xs[i], ev.cen, ev.own[i] + 1)) \cup
     (IF ev.metric # "e" THEN {} ELSE
      Clause("C20", "a centre is not the mean of its cluster", \A j \in DOMAIN ev.cl : ev.cl[j] # <<>> => IsMean(ev.xs, Members(ev.cl, j), ev.cen[j])) \cup
      Clause("C20", "kmeanspp with two centres left one of them without points",
             (ev.init = "kmeanspp" /\ ev.k = 2 /\ Cardinality(Places(ev.xs)) > 1) => \A j \in 1..2 : ev.cl[j] # <<>>) \cup
      Clause("C20", "training again with the same seed gave other centres", ev.seed # 0 => ev.again = ev.cen) \cup
      Clause("C20", "training the same object again gave other centres", ev.seed # 0 => ev.retrained = ev.cen) \cup
      Clause("C20", "training the same object again gave other clusters", ev.seed # 0 => ev.clr = ev.cl) \cup
      Clause("C28", "training again with the same seed gave another model", ev.seed # 0 => ev.again = ev.cen /\ ev.retrained = ev.cen)))

\* all the results that were seen over many seeds, in sixtieths
Sixty(c) == [j \in DOMAIN c |-> [d \in DOMAIN c[j].s |-> (60 * c[j].s[d]) \div c[j].n]]
SpanBad(ev) ==
    LET R == Results(ev.xs, ev.k, ev.init = "kmeanspp")
        could == {Sixty(c) : c \in R}
        seen == {ev.seen[i] : i \in DOMAIN ev.seen} IN
    Clause("C20", "training ended where no start among the points leads", seen \subseteq could) \cup
    Clause("C20", "some start among the points was never taken", {Sixty(c) : c \in Certain(ev.xs, ev.k, ev.init = "kmeanspp")} \subseteq seen) \cup
    Clause("C20", "the data changed", ev.kept) \cup Clause("C24", "training changed the caller's data", ev.kept)

Failed(ev) ==
    IF ev.e = "crash" THEN CrashBad(ev) ELSE IF Has(ev, "exc") THEN ExcBad(ev) ELSE
    CASE ev.e = "km" -> KmBad(ev)
      [] ev.e = "span" -> SpanBad(ev)
      [] OTHER -> {}

TraceInit == l = 1 /\ TLCSet(1, 0)
TraceNext ==
    /\ l <= Len(Trace)
    /\ LET ev == Trace[l] IN IF ev.e = "begin" THEN TRUE ELSE Judge(ev, Failed(ev))
    /\ l' = l + 1
TraceSpec == TraceInit /\ [][TraceNext]_l
TraceAccepted == Accepted
=============================================================================
