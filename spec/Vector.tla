-------------------------------- MODULE Vector --------------------------------
(* Points as vectors of integers: element by element expressions, the        *)
(* reductions over them, and the published definitions of the distances.     *)
(* A distance is told in thousandths: itself, its square, or an exponential  *)
(* of it that turns sums of logarithms into products of fractions.           *)
EXTENDS Integers, Sequences, FiniteSets

Big == 1073741824
Abs(v) == IF v < 0 THEN -v ELSE v
Max2(a, b) == IF a > b THEN a ELSE b
Min2(a, b) == IF a < b THEN a ELSE b
RECURSIVE SumF(_, _)
SumF(f, i) == IF i = 0 THEN 0 ELSE f[i] + SumF(f, i - 1)
Sum(f) == SumF(f, Len(f))
RECURSIVE MaxF(_, _)
MaxF(f, i) == IF i = 1 THEN f[1] ELSE Max2(f[i], MaxF(f, i - 1))
Max(f) == MaxF(f, Len(f))
RECURSIVE MinF(_, _)
MinF(f, i) == IF i = 1 THEN f[1] ELSE Min2(f[i], MinF(f, i - 1))
Min(f) == MinF(f, Len(f))
RECURSIVE Pow(_, _)
Pow(b, k) == IF k = 0 THEN 1 ELSE b * Pow(b, k - 1)
Map(Op(_), p) == [i \in DOMAIN p |-> Op(p[i])]
Zip(Op(_, _), p, q) == [i \in DOMAIN p |-> Op(p[i], q[i])]

\* ------------------------------------------------------------- expressions
Quot(a, b) == IF a % b # 0 THEN Big ELSE a \div b
Div(a, b) == IF b > 0 THEN Quot(a, b) ELSE IF b = 0 THEN Big ELSE Quot(-a, -b)
\* values beyond Lim are not followed
Lim == 20000
Cut(v) == IF Abs(v) > Lim THEN Big ELSE v
Ap(o, a, b) ==
    IF a = Big \/ b = Big THEN Big ELSE
    Cut(CASE o = 0 -> a + b [] o = 1 -> a - b [] o = 2 -> a * b [] OTHER -> Div(a, b))
PowC(a, k) == IF a = Big \/ (k > 2 /\ Abs(a) > 27) THEN Big ELSE Cut(Pow(a, k))
\* the value of the expression whose code starts at i: <<value, where it ends>>
RECURSIVE Ev(_, _, _)
Ev(R, c, i) ==
    LET k == c[i] IN
    IF k < 4 THEN <<R[k], i + 1>>
    ELSE IF k = 4 THEN LET e == Ev(R, c, i + 1) IN <<[d \in DOMAIN e[1] |-> IF e[1][d] = Big THEN Big ELSE Abs(e[1][d])], e[2]>>
    ELSE IF k = 5 THEN LET e == Ev(R, c, i + 2) IN <<[d \in DOMAIN e[1] |-> PowC(e[1][d], c[i + 1])], e[2]>>
    ELSE IF k < 20 THEN LET e == Ev(R, c, i + 1) IN <<[d \in DOMAIN e[1] |-> Ap(k - 10, e[1][d], R[c[e[2]]][d])], e[2] + 1>>
    ELSE IF k < 30 THEN LET e == Ev(R, c, i + 2) IN <<[d \in DOMAIN e[1] |-> Ap(k - 20, R[c[i + 1]][d], e[1][d])], e[2]>>
    ELSE IF k < 40 THEN LET e == Ev(R, c, i + 1) IN <<[d \in DOMAIN e[1] |-> Ap(k - 30, e[1][d], c[e[2]])], e[2] + 1>>
    ELSE LET e == Ev(R, c, i + 2) IN <<[d \in DOMAIN e[1] |-> Ap(k - 40, c[i + 1], e[1][d])], e[2]>>
Value(R, c) == Ev(R, c, 1)[1]
Whole(v) == \A d \in DOMAIN v : v[d] # Big

\* -------------------------------------------------------------- reductions
Dot(p, q) == Sum([i \in DOMAIN p |-> p[i] * q[i]])
L1(p) == Sum([i \in DOMAIN p |-> Abs(p[i])])
Linf(p) == Max([i \in DOMAIN p |-> Abs(p[i])])
\* thousandths, rounded down
Thou(num, den) == (1000 * num) \div den
\* n^2 times the variance, n (n - 1) times the covariance
Var(p) == Len(p) * Dot(p, p) - Sum(p) * Sum(p)
Cov(p, q) == Len(p) * Dot(p, q) - Sum(p) * Sum(q)

\* --------------------------------------------------------------- distances
Pos(p, q) == \A i \in DOMAIN p : p[i] > 0 /\ q[i] > 0
NonNeg(p, q) == \A i \in DOMAIN p : p[i] >= 0 /\ q[i] >= 0
Roots == {0, 1, 4, 9, 16, 25, 36, 49}
Squares(p, q) == \A i \in DOMAIN p : p[i] \in Roots /\ q[i] \in Roots
Root(v) == CHOOSE r \in 0..7 : r * r = v
Mass(p, q) == \A i \in DOMAIN p : p[i] # 0 \/ q[i] # 0
\* a sum of fractions in thousandths, at most Len(p) too low; Big where a fraction is too large to follow
Frac(n, d) == IF Abs(n) > 1000000 THEN Big ELSE (1000 * n) \div d
SumBig(f) == IF \E i \in DOMAIN f : f[i] = Big THEN Big ELSE Sum(f)
Sat(a, b) == IF a = Big \/ b = Big \/ (b # 0 /\ a > 1000000 \div b) THEN Big ELSE a * b
RECURSIVE PowSat(_, _)
PowSat(b, k) == IF k = 0 THEN 1 ELSE Sat(b, PowSat(b, k - 1))
RECURSIVE Gcd(_, _)
Gcd(a, b) == IF b = 0 THEN a ELSE Gcd(b, a % b)
\* fractions <<numerator, denominator>>, kept in lowest terms
Low(f) == IF f[1] = Big \/ f[2] = Big THEN <<Big, Big>> ELSE LET g == Gcd(f[1], f[2]) IN <<f[1] \div g, f[2] \div g>>
MulQ(a, b) == LET x == Low(<<a[1], b[2]>>) y == Low(<<b[1], a[2]>>) IN <<Sat(x[1], y[1]), Sat(x[2], y[2])>>
PowQ(a, k) == LET b == Low(a) IN <<PowSat(b[1], k), PowSat(b[2], k)>>
RECURSIVE ProdF(_, _)
ProdF(f, i) == IF i = 0 THEN <<1, 1>> ELSE MulQ(f[i], ProdF(f, i - 1))
ThouQ(f) == IF f[1] = Big \/ f[2] = Big \/ f[1] > 1000000 THEN Big ELSE Thou(f[1], f[2])
\* prod of (a / b) ^ k
Exp(p, q, F(_, _)) == ThouQ(ProdF([i \in DOMAIN p |-> F(p[i], q[i])], Len(p)))

KL(x, y) == PowQ(<<x, y>>, x)
Half(x, y) == PowQ(<<2 * x, x + y>>, x)
Both(x, y) == MulQ(Half(x, y), Half(y, x))
Diff2(x, y) == (x - y) * (x - y)
Chi(p, q, Den(_, _)) == SumBig([i \in DOMAIN p |-> LET d == Den(p[i], q[i]) IN Frac(Diff2(p[i], q[i]), d)])
L2(p, q) == Sum([i \in DOMAIN p |-> Diff2(p[i], q[i])])
L1d(p, q) == Sum([i \in DOMAIN p |-> Abs(p[i] - q[i])])
Linfd(p, q) == Max([i \in DOMAIN p |-> Abs(p[i] - q[i])])
Chord(p, q) == Sum([i \in DOMAIN p |-> Diff2(Root(p[i]), Root(q[i]))])

Names == {"Euclidean", "Manhattan", "Chebyshev", "Lorentzian", "Canberra", "Sorensen", "AvgManhattan", "NonIntersection", "Jaccard",
          "Cosine", "Dice", "Bhattacharyya", "SquaredChord", "Matusita", "Hellinger", "SquaredEuclidean", "Clark", "Neyman",
          "Pearson", "Squared", "ProbabilisticSymmetric", "Divergence", "AdditiveSymmetric", "Average", "SquaredChiSquared",
          "KullbackLeibler", "Jeffreys", "KDivergence", "Topsoe", "JensenShannon", "JensenDifference", "MaxSymmetric", "MinSymmetric",
          "AverageL1Linf", "KumarJohnson", "Taneja", "Hassanat"}
Directed == {"Neyman", "Pearson", "KullbackLeibler", "KDivergence"}
\* where a distance is defined
Applies(m, p, q) ==
    CASE m \in {"Euclidean", "Manhattan", "Chebyshev", "Lorentzian", "AvgManhattan", "NonIntersection", "SquaredEuclidean", "Average",
                "AverageL1Linf", "Hassanat"} -> TRUE
      [] m \in {"Canberra", "Clark"} -> Mass(p, q)
      [] m = "Sorensen" -> NonNeg(p, q) /\ Sum(p) + Sum(q) > 0
      [] m \in {"Jaccard", "Dice"} -> Dot(p, p) + Dot(q, q) > 0
      [] m = "Cosine" -> Dot(p, p) > 0 /\ Dot(q, q) > 0
      [] m \in {"SquaredChord", "Matusita", "Hellinger"} -> Squares(p, q)
      [] m = "Bhattacharyya" -> Squares(p, q) /\ Sum([i \in DOMAIN p |-> p[i] * q[i]]) > 0
      [] m = "KumarJohnson" -> Squares(p, q) /\ Pos(p, q)
      [] m \in {"Squared", "ProbabilisticSymmetric", "Divergence", "SquaredChiSquared"} -> NonNeg(p, q) /\ Mass(p, q)
      [] OTHER -> Pos(p, q)
\* a fraction that may be negative
FracS(n, d) == IF d < 0 THEN Frac(-n, -d) ELSE Frac(n, d)
Hass(x, y) == LET lo == Min2(x, y) hi == Max2(x, y) IN
    IF lo >= 0 THEN Frac(hi - lo, 1 + hi) ELSE Frac(hi - lo, 1 + hi - lo)
Dist(m, p, q) ==
    CASE m = "Euclidean" -> 1000 * L2(p, q)
      [] m = "Manhattan" -> 1000 * L1d(p, q)
      [] m = "Chebyshev" -> 1000 * Linfd(p, q)
      [] m = "Lorentzian" -> Exp(p, q, LAMBDA x, y : <<1 + Abs(x - y), 1>>)
      [] m = "Canberra" -> SumBig([i \in DOMAIN p |-> Frac(Abs(p[i] - q[i]), Abs(p[i]) + Abs(q[i]))])
      [] m = "Sorensen" -> Frac(L1d(p, q), Sum(p) + Sum(q))
      [] m = "AvgManhattan" -> Frac(L1d(p, q), Len(p))
      [] m = "NonIntersection" -> 500 * L1d(p, q)
      [] m = "Jaccard" -> Frac(L2(p, q), Dot(p, p) + Dot(q, q) - Dot(p, q))
      [] m = "Cosine" -> LET d == Dot(p, q) IN (IF d < 0 THEN -1 ELSE 1) * Frac(d * d, Dot(p, p) * Dot(q, q))
      [] m = "Dice" -> 1000 - FracS(2 * Dot(p, q), Dot(p, p) + Dot(q, q))
      [] m = "Bhattacharyya" -> 1000 * Sum([i \in DOMAIN p |-> Root(p[i]) * Root(q[i])])
      [] m \in {"SquaredChord", "Matusita"} -> 1000 * Chord(p, q)
      [] m = "Hellinger" -> 2000 * Chord(p, q)
      [] m = "SquaredEuclidean" -> 1000 * L2(p, q)
      [] m = "Clark" -> Chi(p, q, LAMBDA x, y : (Abs(x) + Abs(y)) * (Abs(x) + Abs(y)))
      [] m = "Neyman" -> Chi(p, q, LAMBDA x, y : x)
      [] m = "Pearson" -> Chi(p, q, LAMBDA x, y : y)
      [] m \in {"Squared", "SquaredChiSquared"} -> Chi(p, q, LAMBDA x, y : x + y)
      [] m = "ProbabilisticSymmetric" -> 2 * Chi(p, q, LAMBDA x, y : x + y)
      [] m = "Divergence" -> 2 * Chi(p, q, LAMBDA x, y : (x + y) * (x + y))
      [] m = "AdditiveSymmetric" -> SumBig([i \in DOMAIN p |-> Frac(2 * Diff2(p[i], q[i]) * (p[i] + q[i]), p[i] * q[i])])
      [] m = "Average" -> Frac(L2(p, q), Len(p))
      [] m = "KullbackLeibler" -> Exp(p, q, KL)
      [] m = "Jeffreys" -> Exp(p, q, LAMBDA x, y : IF x > y THEN PowQ(<<x, y>>, x - y) ELSE PowQ(<<y, x>>, y - x))
      [] m = "KDivergence" -> Exp(p, q, Half)
      [] m \in {"Topsoe", "JensenShannon", "JensenDifference"} -> Exp(p, q, Both)
      [] m = "MaxSymmetric" -> Max2(Chi(p, q, LAMBDA x, y : x), Chi(p, q, LAMBDA x, y : y))
      [] m = "MinSymmetric" -> Min2(Chi(p, q, LAMBDA x, y : x), Chi(p, q, LAMBDA x, y : y))
      [] m = "AverageL1Linf" -> 500 * (L1d(p, q) + Linfd(p, q))
      [] m = "KumarJohnson" ->
            SumBig([i \in DOMAIN p |-> LET r == Root(p[i]) * Root(q[i]) s == p[i] * p[i] - q[i] * q[i] IN
                                       IF Abs(s) > 1000 THEN Big ELSE Frac(s * s, 2 * r * r * r)])
      [] m = "Taneja" -> Exp(p, q, LAMBDA x, y : PowQ(<<(x + y) * (x + y), 4 * x * y>>, x + y))
      [] m = "Hassanat" -> SumBig([i \in DOMAIN p |-> Hass(p[i], q[i])])
      [] OTHER -> Big
\* what two points without any difference are told
Zero(m) == IF m \in {"Lorentzian", "KullbackLeibler", "Jeffreys", "KDivergence", "Topsoe", "JensenShannon", "JensenDifference", "Taneja", "Cosine"}
           THEN 1000 ELSE 0
\* all the fractions of a sum are rounded down
Slack(m, p) == 2 * Len(p) + 2

\* -------------------------------------------------- statistics of a dataset
Col(xs, d) == [i \in DOMAIN xs |-> xs[i][d]]
Kept(names, f) == {d \in DOMAIN names : names[d] # f}
RECURSIVE SumOver(_, _)
SumOver(f, S) == IF S = {} THEN 0 ELSE LET d == CHOOSE d \in S : TRUE IN f[d] + SumOver(f, S \ {d})
\* squared distance of point i and the mean, times n^2
FromMean(xs, i, S) ==
    LET n == Len(xs) IN
    SumOver([d \in DOMAIN xs[1] |-> (n * xs[i][d] - Sum(Col(xs, d))) * (n * xs[i][d] - Sum(Col(xs, d)))], S)
MaxSet(S) == CHOOSE v \in S : \A w \in S : w <= v
Radius2(xs, S) == Thou(MaxSet({FromMean(xs, i, S) : i \in DOMAIN xs}), Len(xs) * Len(xs))
Largest(xs, S) == MaxSet({0} \cup {Abs(xs[i][d]) : i \in DOMAIN xs, d \in S})
Class(ys, one) == {i \in DOMAIN ys : (ys[i] = 1) = one}
\* squared distance of the centres of the two classes, with its denominator
Centres(xs, ys, S) ==
    LET P == Class(ys, TRUE) N == Class(ys, FALSE) a == Cardinality(P) b == Cardinality(N)
        g == [d \in DOMAIN xs[1] |-> b * SumOver(Col(xs, d), P) - a * SumOver(Col(xs, d), N)] IN
    Thou(SumOver([d \in DOMAIN g |-> g[d] * g[d]], S), a * a * b * b)
=============================================================================
