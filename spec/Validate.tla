------------------------------ MODULE Validate ------------------------------
(* Counting predictions and cross-validation. Labels are integers; a class   *)
(* list is a sequence of distinct labels; ratios are compared in fixed point.*)
EXTENDS Integers, Sequences, FiniteSets

RECURSIVE SumTo(_, _)
SumTo(f, n) == IF n = 0 THEN 0 ELSE f[n] + SumTo(f, n - 1)
Abs(a) == IF a < 0 THEN -a ELSE a
SetOf(s) == {s[i] : i \in DOMAIN s}

Cell(ys, ps, c, d) == Cardinality({i \in DOMAIN ys : ys[i] = c /\ ps[i] = d})
Matrix(ys, ps, cl) == [i \in DOMAIN cl |-> [j \in DOMAIN cl |-> Cell(ys, ps, cl[i], cl[j])]]
Right(ys, ps) == Cardinality({i \in DOMAIN ys : ys[i] = ps[i]})
\* positives: the classes counted as positive
Counts(ys, ps, positives) ==
    [tp |-> Cardinality({i \in DOMAIN ys : ys[i] = ps[i] /\ ys[i] \in positives}),
     tn |-> Cardinality({i \in DOMAIN ys : ys[i] = ps[i] /\ ys[i] \notin positives}),
     fn |-> Cardinality({i \in DOMAIN ys : ys[i] # ps[i] /\ ys[i] \in positives}),
     fp |-> Cardinality({i \in DOMAIN ys : ys[i] # ps[i] /\ ys[i] \notin positives})]
\* v / scale is a / b up to rounding to the scale
Ratio(v, a, b, scale) == b > 0 => Abs(v * b - a * scale) <= b
----------------------------------------------------------------------------
(* cross-validation: runs is the sequence of [train, tested] of positions    *)
RECURSIVE Gcd(_, _)
Gcd(a, b) == IF b = 0 THEN a ELSE Gcd(b, a % b)
Lcm(a, b) == (a \div Gcd(a, b)) * b
RECURSIVE LcmTo(_, _)
LcmTo(f, n) == IF n = 0 THEN 1 ELSE Lcm(f[n], LcmTo(f, n - 1))
\* one execution of k-fold: every point is held out once and never trained on at that time
HeldOut(runs, all) ==
    /\ \A r \in DOMAIN runs : SetOf(runs[r].train) \cap SetOf(runs[r].tested) = {}
    /\ \A r \in DOMAIN runs : SetOf(runs[r].train) \cup SetOf(runs[r].tested) = all
    /\ \A i \in all : Cardinality({r \in DOMAIN runs : i \in SetOf(runs[r].tested)}) = 1
    /\ \A r \in DOMAIN runs : Len(runs[r].tested) = Cardinality(SetOf(runs[r].tested))
                              /\ Len(runs[r].train) = Cardinality(SetOf(runs[r].train))
Sizes(runs) == [r \in DOMAIN runs |-> Len(runs[r].tested)]
\* mean over the runs of the percentage of wrong predictions: thousandths, wrong[r] of Sizes[r]
MeanError(v, wrong, sizes) ==
    LET L == LcmTo(sizes, Len(sizes))
        total == SumTo([r \in DOMAIN sizes |-> wrong[r] * (L \div sizes[r])], Len(sizes)) IN
    L * Len(sizes) < 20000 => v \in 0..100000 /\ Abs(v * L * Len(sizes) - 100000 * total) <= L * Len(sizes)
=============================================================================
