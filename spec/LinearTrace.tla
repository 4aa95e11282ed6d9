---------------------------- MODULE LinearTrace ----------------------------
(* Judges recorded trainings of the classifiers that separate with a         *)
(* hyperplane or a kernel expansion. Fields with S are scaled by 1000,       *)
(* fields with 1 count the learning rate.                                    *)
(*  kind 1 PerceptronPrimal 2 PerceptronDual 3 PerceptronFixedMarginPrimal   *)
(*  4 PerceptronFixedMarginDual 5 BalancedPerceptron 6 IMAp 7 IMADual 8 SMO  *)
(*  9 IMApFixedMargin; kernel type 0 inner product 1 polynomial 2 Gaussian   *)
EXTENDS Linear, TraceCommon
VARIABLE l
NaN == 1073741824
Known(v) == v < NaN /\ v > -NaN
AllKnown(s) == \A k \in DOMAIN s : Known(s[k])
SetOf(s) == {s[k] : k \in DOMAIN s}
Least(S) == CHOOSE m \in S : \A v \in S : m <= v
PropOf(ev) == IF ev.kind \in {6, 7, 9} THEN "C25" ELSE IF ev.kind = 8 THEN "C16" ELSE "C15"
Points(ev) == ev.xs \o ev.queries
Dual(ev) == ev.kind \in {2, 4, 7, 8}
Linear0(ev) == ~Dual(ev) \/ ev.type = 0
Span(x) == SumSeq([k \in DOMAIN x |-> Abs(x[k])])
Sum1(s) == SumSeq(s)

\* ------------------------------------------------------------ every classifier
Strict(ev) == \A i \in DOMAIN ev.ys : ev.sgn[i] = ev.ys[i] /\ ev.pred[i] = ev.ys[i]
SignIsClass(ev) == \A j \in DOMAIN ev.sgn : \/ ev.sgn[j] = ev.pred[j]
                                            \/ ev.sgn[j] = 0 /\ ev.pred[j] \in {-1, 1}
\* the score is the plane of the reported weights (rounding of the scaled values)
PlaneIs(ev) == Len(ev.wS) = Len(ev.xs[1]) /\ \A j \in DOMAIN Points(ev) :
    LET x == Points(ev)[j] IN Abs(Dot(ev.wS, x) + ev.bS - ev.fS[j]) <= 3 + Span(x)
GeneralBad(ev) ==
    LET P == PropOf(ev) IN
    (IF ev.kind = 8 THEN {} ELSE
       Clause(P, "training reported success but some training point is not strictly on its own side", ev.ret => Strict(ev))) \cup
    Clause(P, "the predicted class is not the sign of the score", SignIsClass(ev)) \cup
    (IF ev.small /\ Linear0(ev) THEN
       Clause(P, "the score is not the plane of the reported weights and bias", PlaneIs(ev)) ELSE {}) \cup
    Clause("C24", "training or evaluating changed the caller's data", ev.kept) \cup
    Clause("C24", "evaluating again gave another answer", ev.stable)

\* ------------------------------------------------------------ perceptrons
\* a witness plane the scenario was built from; the classical bound on the mistakes
WX(ev, i) == Dot(ev.wit, ev.xs[i]) + ev.witb
HasWitness(ev) == ev.wit # <<>> /\ \A i \in DOMAIN ev.ys : ev.ys[i] * WX(ev, i) > 0
Bound(ev) ==
    LET m == Least({ev.ys[i] * WX(ev, i) : i \in DOMAIN ev.ys})
        R == LET S == {-(Dot(ev.xs[i], ev.xs[i]) + 1) : i \in DOMAIN ev.ys} IN -Least(S)
    IN (R * (Dot(ev.wit, ev.wit) + ev.witb * ev.witb)) \div (m * m) + 1
Must(ev) == /\ ev.kind \in {1, 2, 3, 4, 5, 6, 7} /\ Linear0(ev) /\ HasWitness(ev)
            /\ (ev.kind \in {3, 4} => ev.gammaS = 0)
            /\ (ev.maxup = 0 \/ ev.maxup >= Bound(ev)) /\ ev.maxit > Bound(ev)
Plain(ev) == ev.kind \in {1, 2} \/ (ev.kind \in {3, 4} /\ ev.gammaS = 0)
Dim(ev) == Len(ev.xs[1])
OneHot(ev) == Dim(ev) >= Len(ev.ys) /\ \A i \in DOMAIN ev.ys : \A k \in 1..Dim(ev) : (k <= Len(ev.ys)) => ev.xs[i][k] = (IF k = i THEN 1 ELSE 0)
PlainExact(ev) ==
    LET n == Len(ev.ys) IN
    /\ Known(ev.b1) /\ AllKnown(ev.w1)
    /\ Abs(ev.b1) <= ev.ctot /\ (ev.b1 - ev.ctot) % 2 = 0
    /\ OneHot(ev) => LET c == [i \in 1..n |-> ev.ys[i] * ev.w1[i]] IN
                     /\ \A i \in 1..n : c[i] >= 0
                     /\ Sum1(c) = ev.ctot /\ BiasOf(c, ev.ys) = ev.b1
                     /\ ev.w1 = Combination(c, ev.xs, ev.ys, Dim(ev))
DualExact(ev) ==
    /\ AllKnown(ev.a1) /\ Known(ev.b1)
    /\ Len(ev.a1) = Len(ev.ys) /\ \A i \in DOMAIN ev.a1 : ev.a1[i] >= 0
    /\ ev.fits = 1 => Sum1(ev.a1) = ev.ctot
    /\ ev.b1 = BiasOf(ev.a1, ev.ys)
    /\ ev.w1 = Combination(ev.a1, ev.xs, ev.ys, Dim(ev))
DualScores(ev) == \A j \in DOMAIN Points(ev) :
    Known(ev.f1[j]) => ev.f1[j] = Expansion(ev.a1, ev.b1, ev.xs, ev.ys, ev.type, ev.param, Points(ev)[j])
\* squared norm in units of the squared rate
SquareNorm(ev) == Known(ev.n1) => Abs(ev.n1 - Dot(ev.w1, ev.w1)) <= 1 + Dot(ev.w1, ev.w1) \div 1000000
SquareNormDual(ev) == Known(ev.n1) =>
    LET s == SumSeq([i \in DOMAIN ev.ys |-> ev.a1[i] * ev.ys[i] * SumSeq([j \in DOMAIN ev.ys |->
                 ev.a1[j] * ev.ys[j] * KernelVal(ev.type, ev.param, ev.xs[i], ev.xs[j])])]) IN
    Abs(ev.n1 - s) <= 1 + s \div 1000000
FitsSums(ev) == SumSeq(ev.a1) <= 300 /\ (ev.type = 1 => ev.param <= 3)
\* norms of the scaled weights: q = 2, 1 and -1 (maximum)
NormIs(ev) ==
    LET w == ev.wS  d == Len(ev.wS)
        m == -Least({-Abs(w[k]) : k \in DOMAIN w}) IN
    CASE ev.q = 1 -> Abs(SumSeq([k \in DOMAIN w |-> Abs(w[k])]) - ev.normS) <= d + 2
      [] ev.q = -1 -> Abs(m - ev.normS) <= 2
      [] ev.q = 2 -> IF m <= 10000 /\ ev.normS <= 20000
                     THEN Abs(ev.normS * ev.normS - Dot(w, w)) <= 2 * ev.normS + 2 * d * m + d + 2
                     ELSE LET u == [k \in DOMAIN w |-> w[k] \div 100]  v == ev.normS \div 100 IN
                          (v < 15000) => Abs(v * v - Dot(u, u)) <= 4 * v + 4 * d * (m \div 100) + 4 * d + 4
      [] OTHER -> TRUE
NonNeg(ev) == Dual(ev) => \A i \in DOMAIN ev.aS : ev.aS[i] >= 0
\* what is on the points' own side, scaled: y f
Own(ev) == [i \in DOMAIN ev.ys |-> ev.ys[i] * ev.fS[i]]
Nearest(ev, y) == Least({Own(ev)[i] : i \in {k \in DOMAIN ev.ys : ev.ys[k] = y}})
BothClasses(ev) == SetOf(ev.ys) = {-1, 1}
Margins(ev) == ev.ret /\ ev.small /\ NonNeg(ev) /\ BothClasses(ev) /\ Known(ev.normS)
GammaKept(ev) == \A i \in DOMAIN ev.ys :
    ev.normS < 1000000 => Own(ev)[i] >= (ev.gammaS * ev.normS) \div 1000 - 3
PerceptronBad(ev) ==
    LET P == PropOf(ev) IN
    (IF ev.kind \in 1..7 /\ Must(ev) THEN Clause(P, "linearly separable data within the limits was not separated", ev.ret) ELSE {}) \cup
    (IF ev.kind \in 1..5 /\ (ev.kind = 4 => ev.fits = 1) THEN
       Clause(P, "training went on beyond its limits", /\ ev.maxit > 0 => ev.steps <= ev.maxit + 1
                                                       /\ ev.maxup > 0 => ev.ctot <= ev.maxup + Len(ev.ys)) ELSE {}) \cup
    (IF Plain(ev) /\ ~Dual(ev) /\ ev.q = 2 THEN
       Clause(P, "weights or bias are not a sum over the mistakes", PlainExact(ev)) \cup
       Clause(P, "the reported norm is not the norm of the weights", ev.ctot > 0 /\ AllKnown(ev.w1) /\ Span(ev.w1) < 10000 => SquareNorm(ev)) ELSE {}) \cup
    (IF Plain(ev) /\ Dual(ev) THEN
       Clause(P, "multipliers, bias and weights are not a sum over the mistakes", DualExact(ev)) \cup
       (IF DualExact(ev) /\ ev.type < 2 /\ FitsSums(ev) THEN
          Clause(P, "the score is not the expansion over the training points", DualScores(ev)) \cup
          Clause(P, "the reported norm is not the norm of the expansion", SquareNormDual(ev)) ELSE {}) ELSE {}) \cup
    (IF ev.kind \in {3, 4, 9} /\ Margins(ev) THEN
       Clause(P, "a training point is nearer than the fixed margin", GammaKept(ev)) ELSE {}) \cup
    (IF ev.kind \in {3, 6, 9} /\ ev.small /\ (ev.kind = 6 => ev.ret) THEN
       Clause(P, "the reported norm is not the norm of the weights", NormIs(ev)) ELSE {}) \cup
    (IF ev.kind = 5 /\ Margins(ev) THEN
       Clause(P, "the balanced hyperplane is not equally far from both classes", Abs(Nearest(ev, 1) - Nearest(ev, -1)) <= 3) ELSE {})
\* ------------------------------------------------------------ incremental margin
Fits(ev) == ev.normS < 100000 /\ ev.marginS < 10000 /\ ev.normS > 0
Tol(ev) == 2 * (ev.normS + ev.marginS) + 4000
ImaBad(ev) ==
    IF ev.kind \in {6, 7} /\ Margins(ev) /\ Fits(ev) THEN
       LET p == Nearest(ev, 1)  m == Nearest(ev, -1) IN
       (IF ev.kind = 6 THEN
          Clause("C25", "the reported margin is not the mean distance of the two classes from the hyperplane",
                 p < 100000 /\ m < 100000 => Abs(2 * ev.marginS * ev.normS - 1000 * (p + m)) <= 2 * Tol(ev))
        ELSE
          Clause("C25", "the reported margin is not the smallest distance from the hyperplane",
                 LET d == IF p < m THEN p ELSE m IN d < 100000 => Abs(ev.marginS * ev.normS - 1000 * d) <= Tol(ev))) \cup
       (IF ev.kind = 7 /\ ev.type = 0 THEN Clause("C25", "the reported norm is not the norm of the weights", NormIs(ev)) ELSE {})
    ELSE {}
BudgetsBad(ev) ==
    Clause("C25", "a larger budget ended with a smaller margin",
           \A i, j \in DOMAIN ev.margins : (i < j /\ ev.oks[i] = 1) => (ev.oks[j] = 1 /\ ev.margins[j] >= ev.margins[i] - 3))
\* ------------------------------------------------------------ support vectors
C == 9999000
AtZero(ev, i) == ev.aS[i] = 0
AtC(ev, i) == ev.aS[i] >= C - 1
Exp(ev, j) == IF ev.type < 2
              THEN SumSeq([i \in DOMAIN ev.ys |-> ev.aS[i] * ev.ys[i] * KernelVal(ev.type, ev.param, ev.xs[i], Points(ev)[j])])
              ELSE SumSeq([i \in DOMAIN ev.ys |-> ev.aS[i] * ev.ys[i] * ev.ks[j][i]]) \div 1000
Kmax(ev) == IF ev.type = 2 THEN 1 ELSE
            -Least({-Abs(KernelVal(ev.type, ev.param, ev.xs[i], Points(ev)[j])) : i \in DOMAIN ev.ys, j \in DOMAIN Points(ev)})
ExpandsWithin(ev) == SumSeq(ev.aS) < (IF ev.type = 2 THEN 1000000 ELSE 1000000000 \div Max2(1, Kmax(ev)))
ExpTol(ev) == 4 + Len(ev.ys) * Kmax(ev) + SumSeq(ev.aS) \div 1000
\* steps smaller than a ten-millionth of the multipliers are not taken
KTol(ev) == 3 + ((SumSeq(ev.aS) \div 100000) * Max2(1, Kmax(ev))) \div 20
\* bounds on the bias by the multipliers that can still grow or shrink
Need(ev, i) == 1000 * ev.ys[i] - (ev.fS[i] - ev.bS)
Low(ev) == {i \in DOMAIN ev.ys : (ev.ys[i] = 1 /\ ~AtC(ev, i)) \/ (ev.ys[i] = -1 /\ ~AtZero(ev, i))}
Up(ev) == {i \in DOMAIN ev.ys : (ev.ys[i] = 1 /\ ~AtZero(ev, i)) \/ (ev.ys[i] = -1 /\ ~AtC(ev, i))}
Inner(ev) == {i \in DOMAIN ev.ys : ~AtZero(ev, i) /\ ~AtC(ev, i)}
SomeBias(ev, tol) == \A i \in Low(ev), j \in Up(ev) : Need(ev, i) <= Need(ev, j) + 2 * tol
ThisBias(ev, tol) == \A i \in DOMAIN ev.ys :
    LET o == Own(ev)[i] IN
    /\ ~AtC(ev, i) => o >= 1000 - tol
    /\ ~AtZero(ev, i) => o <= 1000 + tol
Moderate(ev) == \A j \in DOMAIN ev.fS : Abs(ev.fS[j]) < 100000000
\* the multipliers of separable data stay well below the penalty
SmallPenalty(ev) == Dot(ev.wit, ev.wit) < 5000
SmoBad(ev) ==
    Clause("C16", "a multiplier is outside the box", \A i \in DOMAIN ev.aS : 0 <= ev.aS[i] /\ ev.aS[i] <= C + 1) \cup
    Clause("C16", "there is not one multiplier per point", Len(ev.aS) = Len(ev.ys)) \cup
    (IF Len(ev.aS) # Len(ev.ys) \/ \E i \in DOMAIN ev.aS : ev.aS[i] < 0 \/ ev.aS[i] > C + 1 THEN {} ELSE
     Clause("C16", "the label-weighted multipliers do not sum to zero",
            Abs(SumSeq([i \in DOMAIN ev.ys |-> ev.aS[i] * ev.ys[i]])) <= Len(ev.ys) + SumSeq(ev.aS) \div 1000000) \cup
     (IF ev.type = 0 /\ ExpandsWithin(ev) THEN
        Clause("C16", "the weights are not the combination of the training points",
               /\ Len(ev.wS) = Dim(ev)
               /\ LET c == Combination(ev.aS, ev.xs, ev.ys, Dim(ev)) IN
                  \A k \in DOMAIN ev.wS : Abs(c[k] - ev.wS[k]) <= 2 + SumSeq([i \in DOMAIN ev.xs |-> Abs(ev.xs[i][k])])) ELSE {}) \cup
     (IF ExpandsWithin(ev) /\ Moderate(ev) THEN
        Clause("C16", "the score is not the expansion over the training points",
               LET tol == ExpTol(ev) IN \A j \in DOMAIN Points(ev) : Abs(Exp(ev, j) + ev.bS - ev.fS[j]) <= tol) ELSE {}) \cup
     (IF ev.ret /\ Moderate(ev) THEN
        LET tol == KTol(ev) IN
        Clause("C16", "training reported success but no bias satisfies the optimality conditions", SomeBias(ev, tol)) \cup
        (IF Inner(ev) # {} THEN
           Clause("C16", "training reported success but the optimality conditions do not hold with the reported bias", ThisBias(ev, tol)) ELSE {}) ELSE {}) \cup
     (IF HasWitness(ev) /\ ev.type = 0 /\ SmallPenalty(ev) /\ ev.maxit > 4000 /\ Len(ev.ys) < 12 THEN
        Clause("C16", "separable data was not solved", ev.ret /\ Strict(ev)) ELSE {}))

FitBad(ev) == GeneralBad(ev) \cup (IF ev.kind = 8 THEN SmoBad(ev) ELSE PerceptronBad(ev) \cup ImaBad(ev))
Failed(ev) ==
    IF ev.e = "crash" THEN CrashBad(ev) ELSE IF Has(ev, "exc") THEN ExcBad(ev) ELSE IF Has(ev, "skip") THEN {} ELSE
    CASE ev.e \in {"fit", "again"} -> FitBad(ev)
      [] ev.e = "budgets" -> BudgetsBad(ev)
      [] OTHER -> {}
TraceInit == l = 1 /\ TLCSet(1, 0)
TraceNext ==
    /\ l <= Len(Trace)
    /\ LET ev == Trace[l] IN IF ev.e = "begin" THEN TRUE ELSE Judge(ev, Failed(ev))
    /\ l' = l + 1
TraceSpec == TraceInit /\ [][TraceNext]_l
TraceAccepted == Accepted
=============================================================================
