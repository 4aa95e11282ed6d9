---------------------------- MODULE ValidateTrace ----------------------------
(* Judges recorded matrices, reports and cross-validations.                  *)
EXTENDS Validate, TraceCommon
VARIABLE l
Scale == 1000000
NaN == 1073741824

Known(v) == v < NaN /\ v > -NaN
RatioIs(v, a, b) == b > 0 => (Known(v) /\ Ratio(v, a, b, Scale))
ReportBad(r, t) ==
    Clause("C18", "the counts of the report are not the counts of the predictions",
           r.tp = t.tp /\ r.tn = t.tn /\ r.fp = t.fp /\ r.fn = t.fn) \cup
    Clause("C18", "a ratio of the report is not the ratio of its counts",
           /\ RatioIs(r.sensitivity, t.tp, t.tp + t.fn)
           /\ RatioIs(r.recall, t.tp, t.tp + t.fn)
           /\ RatioIs(r.specificity, t.tn, t.tn + t.fp)
           /\ RatioIs(r.precision, t.tp, t.tp + t.fp)
           /\ (t.tp > 0 => RatioIs(r.fscore, 2 * t.tp, 2 * t.tp + t.fp + t.fn)))
ConfBad(ev) ==
    LET cl == ev.classes IN
    Clause("C18", "the class list of the data is wrong", SetOf(cl) = SetOf(ev.ys) /\ Len(cl) = Cardinality(SetOf(cl))) \cup
    Clause("C18", "the confusion matrix does not count the predictions", ev.matrix = Matrix(ev.ys, ev.ps, cl)) \cup
    Clause("C18", "the accuracy of the matrix is not the percentage of right predictions",
           RatioIs(ev.macc, Right(ev.ys, ev.ps), Len(ev.ys))) \cup
    Clause("C18", "the accuracy is not the ratio of right predictions", RatioIs(ev.acc, Right(ev.ys, ev.ps), Len(ev.ys))) \cup
    Clause("C18", "an untrained model was not trained before counting", ev.trained = 1) \cup
    UNION {LET r == ev.reports[k]
               P == IF r.positives = <<>> THEN SetOf(cl) ELSE SetOf(r.positives)
               t == Counts(ev.ys, ev.ps, P) IN
           ReportBad(r, t) \cup
           Clause("C18", "accuracy, error or number of errors of the report do not agree with its counts",
                  /\ RatioIs(r.accuracy, t.tp + t.tn, Len(ev.ys)) /\ RatioIs(r.error, t.fp + t.fn, Len(ev.ys))
                  /\ r.errors = t.fp + t.fn) : k \in DOMAIN ev.reports} \cup
    Clause("C24", "counting changed the caller's data", ev.kept)
CrepBad(ev) ==
    LET labels == SetOf(ev.ys) \cup SetOf(ev.ps) IN
    Clause("C18", "the accuracy is not the ratio of right predictions", RatioIs(ev.report.accuracy, Right(ev.ys, ev.ps), Len(ev.ys))) \cup
    (IF Cardinality(labels) = 2 THEN ReportBad(ev.report, Counts(ev.ys, ev.ps, {1})) ELSE {})

----------------------------------------------------------------------------
\* pred[t][p]: what the classifier predicts for point p after its t-th training
Wrong(ev, first, runs) == [r \in DOMAIN runs |->
    Cardinality({q \in DOMAIN runs[r].tested : ev.pred[first + r - 1][runs[r].tested[q]] # ev.ys[runs[r].tested[q]]})]
Nonempty(runs) == \A r \in DOMAIN runs : runs[r].tested # <<>>
CountsRight(ev, runs, first) ==
    SetOf(ev.ys) = {-1, 1} =>
    LET Is(r, q) == ev.pred[first + r - 1][runs[r].tested[q]] = ev.ys[runs[r].tested[q]]
        Num(y, ok) == SumTo([r \in DOMAIN runs |-> Cardinality({q \in DOMAIN runs[r].tested :
                               ev.ys[runs[r].tested[q]] = y /\ Is(r, q) = ok})], Len(runs)) IN
    /\ ev.truePositive = Num(1, TRUE) /\ ev.falseNegative = Num(1, FALSE)
    /\ ev.trueNegative = Num(-1, TRUE) /\ ev.falsePositive = Num(-1, FALSE)
\* Dual classifiers: the known finding (training points include the held-out ones)
\* is asked for by the scenarios with leak = "judged"; the rest is always judged.
Relaxed(ev) == ev.dual /\ ~ev.strict
Without(run) == [run EXCEPT !.train = SelectSeq(run.train, LAMBDA i : i \notin SetOf(run.tested))]
Seen(ev) == IF Relaxed(ev) THEN [r \in DOMAIN ev.runs |-> Without(ev.runs[r])] ELSE ev.runs
\* mean over the folds of num / den, when every fold has some
FoldCount(ev, runs, r, y, ok) == Cardinality({q \in DOMAIN runs[r].tested :
    ev.ys[runs[r].tested[q]] = y /\ (ev.pred[r][runs[r].tested[q]] = ev.ys[runs[r].tested[q]]) = ok})
MeanIs(v, num, den) ==
    (\A r \in DOMAIN den : den[r] > 0) =>
        Known(v) /\ LET L == LcmTo(den, Len(den)) IN
        L < 4000 => Abs(v * L * Len(den) - 1000 * SumTo([r \in DOMAIN den |-> num[r] * (L \div den[r])], Len(den))) <= L * Len(den)
MeansRight(ev, runs) ==
    SetOf(ev.ys) = {-1, 1} =>
    LET N(y, ok) == [r \in DOMAIN runs |-> FoldCount(ev, runs, r, y, ok)]
        Plus(a, b) == [r \in DOMAIN runs |-> a[r] + b[r]]
        tp == N(1, TRUE)  fn == N(1, FALSE)  tn == N(-1, TRUE)  fp == N(-1, FALSE) IN
    /\ MeanIs(ev.precision, tp, Plus(tp, fp)) /\ MeanIs(ev.recall, tp, Plus(tp, fn)) /\ MeanIs(ev.tnrate, tn, Plus(tn, fp))
KfoldBad(ev) ==
    LET all == DOMAIN ev.ys
        runs == Seen(ev) IN
    Clause("C19", "the classifier was not trained once per fold", Len(runs) = ev.folds) \cup
    Clause("C19", "a point was not held out exactly once, or was evaluated by a model trained on it", HeldOut(runs, all)) \cup
    Clause("C19", "the points were changed for training or evaluation", ev.right) \cup
    (IF Len(runs) = ev.folds /\ Nonempty(runs) /\ HeldOut(runs, all) THEN
       Clause("C19", "the error is not the mean percentage of wrong predictions over the folds",
              Known(ev.error) /\ MeanError(ev.error, Wrong(ev, 1, runs), Sizes(runs))) \cup
       Clause("C19", "the accuracy is not the complement of the error", Known(ev.error) /\ Known(ev.accuracy) /\ Abs(ev.error + ev.accuracy - 100000) <= 1) \cup
       Clause("C19", "the counts of the report are not the counts of the predictions", CountsRight(ev, runs, 1)) \cup
       Clause("C19", "precision, recall or true negative rate are not the means over the folds", MeansRight(ev, runs))
     ELSE {}) \cup
    Clause("C19", "the same call with the same seed held out other points", ev.same) \cup
    Clause("C19", "the caller's dataset was changed", ev.kept) \cup
    Clause("C24", "cross-validation changed the caller's data", ev.kept)
\* executions of k-fold start at the first training or after one for the final validation
Execution(ev, runs, off, x) == [r \in 1..ev.folds |-> runs[off + (x - 1) * ev.folds + r]]
KkBad(ev) ==
    LET all == DOMAIN ev.ys
        runs == Seen(ev)
        n == ev.folds * ev.times
        offs == {o \in {0, 1} : Len(runs) >= n + o}
        Fine(o) == \A x \in 1..ev.times : HeldOut(Execution(ev, runs, o, x), all)
        good == {o \in offs : Fine(o)}
        Flat(o) == [r \in 1..n |-> runs[o + r]] IN
    Clause("C19", "the classifier was not trained once per fold and execution", Len(runs) \in {n, n + 1}) \cup
    Clause("C19", "a point was not held out exactly once per execution, or was evaluated by a model trained on it", good # {}) \cup
    Clause("C19", "a model was evaluated on points it was trained on",
           \A r \in DOMAIN runs : SetOf(runs[r].train) \cap SetOf(runs[r].tested) = {}) \cup
    Clause("C19", "the points were changed for training or evaluation", ev.right) \cup
    (IF good = {} THEN {} ELSE
       Clause("C19", "the error is not the mean over the executions",
              \E o \in good : Nonempty(Flat(o)) => Known(ev.error) /\ MeanError(ev.error, Wrong(ev, o + 1, Flat(o)), Sizes(Flat(o)))) \cup
       Clause("C19", "the accuracy is not the complement of the error", Known(ev.error) /\ Known(ev.accuracy) /\ Abs(ev.error + ev.accuracy - 100000) <= 1)) \cup
    Clause("C19", "the same call with the same seed held out other points", ev.same) \cup
    Clause("C19", "the caller's dataset was changed", ev.kept) \cup
    Clause("C24", "cross-validation changed the caller's data", ev.kept)

Failed(ev) ==
    IF ev.e = "crash" THEN CrashBad(ev) ELSE IF Has(ev, "exc") THEN ExcBad(ev) ELSE
    CASE ev.e = "conf" -> ConfBad(ev)
      [] ev.e = "crep" -> CrepBad(ev)
      [] ev.e = "kfold" -> KfoldBad(ev)
      [] ev.e = "kkfold" -> KkBad(ev)
      [] OTHER -> {}
TraceInit == l = 1 /\ TLCSet(1, 0)
TraceNext ==
    /\ l <= Len(Trace)
    /\ LET ev == Trace[l] IN IF ev.e = "begin" THEN TRUE ELSE Judge(ev, Failed(ev))
    /\ l' = l + 1
TraceSpec == TraceInit /\ [][TraceNext]_l
TraceAccepted == Accepted
=============================================================================
