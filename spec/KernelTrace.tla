----------------------------- MODULE KernelTrace -----------------------------
(* Judges recorded histories of a kernel object. The state is what the       *)
(* matrix has to be by the specification of the cache; type 0 inner product, *)
(* 1 polynomial, 2 Gaussian, 3 a function of the       *)
(* caller: (sum of a + sum of b) * param.                                    *)
EXTENDS Linear, TraceCommon
VARIABLES l, st
NaN == 1073741824
Known(v) == v < NaN /\ v > -NaN
\* a million times exp(-k), rounded
ExpTable == <<1000000, 367879, 135335, 49787, 18316, 6738, 2479, 912, 335, 123, 45, 17, 6, 2, 1, 0>>
ExpOf(k) == IF k + 1 > Len(ExpTable) THEN 0 ELSE ExpTable[k + 1]
Square(a, b, out) == SumSeq([k \in DOMAIN a |-> IF k = out THEN 0 ELSE (a[k] - b[k]) * (a[k] - b[k])])
DotBut(a, b, out) == SumSeq([k \in DOMAIN a |-> IF k = out THEN 0 ELSE a[k] * b[k]])
\* kernel value without feature out (0: all features)
Value(t, p, a, b, out) ==
    CASE t = 0 -> DotBut(a, b, out)
      [] t = 1 -> IF p > 1 THEN Pow(DotBut(a, b, out), p) ELSE DotBut(a, b, out)
      [] t = 2 -> ExpOf(p * Square(a, b, out))
      [] OTHER -> (SumSeq(a) + SumSeq(b)) * p
MatrixOf(t, p, xs) == [i \in DOMAIN xs |-> [j \in DOMAIN xs |-> Value(t, p, xs[i], xs[j], 0)]]
Same(m, e, t) == /\ Len(m) = Len(e)
                 /\ \A i \in DOMAIN e : Len(m[i]) = Len(e[i]) /\ \A j \in DOMAIN e[i] :
                        IF t = 2 THEN Abs(m[i][j] - e[i][j]) <= 1 ELSE m[i][j] = e[i][j]
\* norm from the matrix the cache holds, positive multipliers only or all
NormSq(m, s, all) == SumSeq([i \in DOMAIN s.ys |-> IF ~all /\ s.al[i] <= 0 THEN 0 ELSE s.al[i] * s.ys[i] *
                        SumSeq([j \in DOMAIN s.ys |-> IF ~all /\ s.al[j] <= 0 THEN 0 ELSE s.al[j] * s.ys[j] * m[i][j]])])
Empty == [type |-> 0, param |-> 0, xs |-> <<>>, ys |-> <<>>, al |-> <<>>, m |-> <<>>, mt |-> 0, valid |-> FALSE, touched |-> FALSE]

\* the state after an event
After(s, ev) ==
    IF Has(ev, "skip") THEN s ELSE
    CASE ev.e = "new" -> [Empty EXCEPT !.type = ev.type, !.param = ev.param, !.xs = s.xs, !.ys = s.ys, !.al = s.al]
      [] ev.e = "settype" -> [s EXCEPT !.type = ev.type, !.valid = FALSE]
      [] ev.e = "setparam" -> [s EXCEPT !.param = ev.param, !.valid = FALSE]
      [] ev.e = "recompute" -> [s EXCEPT !.valid = FALSE]
      [] ev.e = "data" -> [s EXCEPT !.xs = ev.xs, !.ys = ev.ys, !.al = ev.al, !.touched = TRUE]
      [] ev.e \in {"compute", "call"} ->
            IF s.valid THEN s
            ELSE [s EXCEPT !.m = MatrixOf(s.type, s.param, s.xs), !.mt = s.type, !.valid = TRUE, !.touched = FALSE]
      [] OTHER -> s
\* data that changed without asking for recomputation: old or new matrix
Open(s) == s.valid /\ s.touched
Scale(t) == IF t = 2 THEN 1000000 ELSE 1
NormRight(v, want, t) == Known(v) => Abs(v - want) <= (IF t = 2 THEN 40 ELSE 0) + want \div 1000000
Failed(s, ev) ==
    IF ev.e = "crash" THEN CrashBad(ev) ELSE IF Has(ev, "exc") THEN ExcBad(ev) ELSE IF Has(ev, "skip") THEN {} ELSE
    LET n == After(s, ev) IN
    (IF ev.e \in {"compute", "call"} THEN
       LET now == MatrixOf(n.type, n.param, n.xs) IN
       Clause("C23", "the matrix is not the kernel function of every pair of points",
              Same(ev.matrix, n.m, n.type) \/ (Open(s) /\ Same(ev.matrix, now, n.type))) \cup
       Clause("C23", "the matrix is not symmetric", \A i, j \in DOMAIN ev.matrix : ev.matrix[i][j] = ev.matrix[j][i]) \cup
       Clause("C23", "the views of the matrix differ", ev.views) ELSE {}) \cup
    (IF ev.e = "h" THEN
       Clause("C23", "the label-weighted matrix is wrong",
              Same(ev.matrix, [i \in DOMAIN s.xs |-> [j \in DOMAIN s.xs |-> s.ys[i] * s.ys[j] * Value(s.type, s.param, s.xs[i], s.xs[j], 0)]], s.type)) ELSE {}) \cup
    (IF ev.e = "hout" THEN
       Clause("C23", "the label-weighted matrix without a feature is wrong",
              Same(ev.matrix, [i \in DOMAIN s.xs |-> [j \in DOMAIN s.xs |-> s.ys[i] * s.ys[j] * Value(s.type, s.param, s.xs[i], s.xs[j], ev.out + 1)]], s.type)) ELSE {}) \cup
    (IF ev.e = "norm" /\ ~Open(s) THEN
       Clause("C23", "the norm is not the double sum over the expansion",
              NormRight(ev.norm, NormSq(s.m, s, TRUE), s.mt) /\ NormRight(ev.fsnorm, NormSq(s.m, s, FALSE), s.mt)) \cup
       Clause("C23", "asking for the norm again gave another value", ev.stable) ELSE {}) \cup
    (IF ev.e = "pair" THEN
       Clause("C23", "the kernel of two points is wrong",
              LET v == Value(s.type, s.param, ev.a, ev.b, 0) IN
              IF s.type = 2 THEN Abs(ev.value - v) <= 1 /\ Abs(ev.back - v) <= 1 ELSE ev.value = v /\ ev.back = v) ELSE {}) \cup
    Clause("C23", "type or parameter are not the ones that were set", ev.gtype = n.type /\ ev.gparam = n.param) \cup
    Clause("C24", "a kernel operation changed the caller's data", ev.kept)
TraceInit == l = 1 /\ st = Empty /\ TLCSet(1, 0)
TraceNext ==
    /\ l <= Len(Trace)
    /\ LET ev == Trace[l] IN
       IF ev.e = "begin" THEN st' = Empty
       ELSE /\ Judge(ev, Failed(st, ev))
            /\ st' = IF ev.e = "crash" \/ Has(ev, "exc") THEN st ELSE After(st, ev)
    /\ l' = l + 1
TraceSpec == TraceInit /\ [][TraceNext]_<<l, st>>
TraceAccepted == Accepted
=============================================================================
