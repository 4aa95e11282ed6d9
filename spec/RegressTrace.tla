----------------------------- MODULE RegressTrace ----------------------------
(* Judges recorded trainings and predictions of the regressors.              *)
EXTENDS Regress, TraceCommon
VARIABLE l
Close(v, w, tol) == Abs(v - w) <= tol
None == <<-1>>
Start(ev) == IF ev.init = 0 THEN Plane([d \in DOMAIN ev.xs[1] |-> 0], 0) ELSE Plane(ev.w0, ev.b0)
\* a recorded number is in units of 2^-20 (ev.fine), or not followed
Same(v, n, e) == e <= 20 /\ Abs(n) <= Big \div Pow2(20 - e) /\ v = n * Pow2(20 - e)
Follow(n, e) == e <= 20 /\ Abs(n) < Big \div Pow2(20 - e)
AsPlane(m, w, b) == (Follow(m.b, m.e) => Same(b, m.b, m.e)) /\ \A d \in DOMAIN m.w : Follow(m.w[d], m.e) => Same(w[d], m.w[d], m.e)
Hundred(v) == Abs(v) < 3000
\* squared distance of a recorded plane (hundredths) to one with whole numbers
Away(w, b, gw, gb) == (b - 100 * gb) * (b - 100 * gb) + Sum([d \in DOMAIN gw |-> (w[d] - 100 * gw[d]) * (w[d] - 100 * gw[d])])
Size(v) == \A i \in DOMAIN v : Hundred(v[i])
LmsBad(ev) ==
    LET n == Len(ev.xs)
        k == ev.updates \div n
        m == Passes(Start(ev), ev.xs, ev.ys, ev.r, k)
        onplane == ev.goal # <<>>
        small == \A i \in DOMAIN ev.xs : Length(ev.xs[i]) <= 2 * Pow2(ev.r)
        tight == \A i \in DOMAIN ev.xs : Length(ev.xs[i]) < 2 * Pow2(ev.r) IN
    Clause("C30", "training failed", ev.ok) \cup
    Clause("C30", "training did not pass over whole data sets", ev.updates = k * n /\ k >= 1 /\ k <= ev.maxit) \cup
    Clause("C30", "the plane is not the one the steps lead to", (m # Lost /\ k <= 6) => AsPlane(m, ev.w, ev.b)) \cup
    Clause("C30", "training stopped before its limit and before it settled",
           (k < ev.maxit /\ k <= 6 /\ m # Lost /\ onplane /\ tight) => \A i \in DOMAIN ev.xs : Err(m, ev.xs[i], ev.ys[i]) = 0 \/ ev.settled) \cup
    Clause("C30", "training the same object again gave another plane", ev.again) \cup
    Clause("C30", "the data changed", ev.kept) \cup
    Clause("C24", "training changed the caller's data", ev.kept) \cup
    Clause("C30", "a prediction is not the value of the plane", ev.affine) \cup
    Clause("C30", "the mean squared error is wrong", ev.mse) \cup
    (IF ~(onplane /\ small) THEN {} ELSE
     LET gw == SubSeq(ev.goal, 2, Len(ev.goal)) gb == ev.goal[1] s == Start(ev) IN
     Clause("C30", "training led away from the plane of the data",
            (Size(ev.w100) /\ Hundred(ev.b100)) =>
                Away(ev.w100, ev.b100, gw, gb) <= Away([d \in DOMAIN gw |-> 100 * s.w[d]], 100 * s.b, gw, gb) + 400) \cup
     Clause("C30", "training a single point did not answer its target", (n = 1 /\ tight /\ ev.maxit > 200) => Abs(ev.first - 100 * ev.ys[1]) <= 5))

KnnBad(ev) ==
    LET D(x, y) == IF ev.metric = "e" THEN Euclid(x, y) ELSE Manhattan(x, y) IN
    Clause("C30", "training failed", ev.ok) \cup
    Clause("C30", "a prediction is not the mean of the targets of the nearest points",
           \A j \in DOMAIN ev.qs : \E s \in Answers([i \in DOMAIN ev.xs |-> D(ev.qs[j], ev.xs[i])], ev.ys, ev.k) : Close(ev.out[j], (1000 * s) \div ev.k, 1)) \cup
    Clause("C30", "asking again gave another answer", ev.out2 = ev.out) \cup
    Clause("C30", "the data changed", ev.kept) \cup
    Clause("C24", "training changed the caller's data", ev.kept)
MseBad(ev) ==
    Clause("C30", "the mean squared error is wrong", Close(ev.v, (1000 * Euclid(ev.a, ev.b)) \div Len(ev.a), 1))

Failed(ev) ==
    IF ev.e = "crash" THEN CrashBad(ev) ELSE IF Has(ev, "exc") THEN ExcBad(ev) ELSE IF Has(ev, "skip") THEN {} ELSE
    CASE ev.e = "lms" -> LmsBad(ev)
      [] ev.e = "knn" -> KnnBad(ev)
      [] ev.e = "mse" -> MseBad(ev)
      [] OTHER -> {}
TraceInit == l = 1 /\ TLCSet(1, 0)
TraceNext ==
    /\ l <= Len(Trace)
    /\ LET ev == Trace[l] IN IF ev.e = "begin" THEN TRUE ELSE Judge(ev, Failed(ev))
    /\ l' = l + 1
TraceSpec == TraceInit /\ [][TraceNext]_l
TraceAccepted == Accepted
=============================================================================
