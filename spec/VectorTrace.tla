----------------------------- MODULE VectorTrace -----------------------------
(* Judges recorded operations on points: what each register holds after      *)
(* every step, and every number computed from them.                          *)
EXTENDS Vector, TraceCommon
VARIABLES l, reg, meta
vars == <<l, reg, meta>>
None == <<-1000, -1000, -1000>>
Near(v, w, tol) == Abs(v - w) <= tol
\* told in thousandths, rounded; the exact value is rounded down
Told(v, num, den) == IF Abs(num) > 1000000 THEN TRUE ELSE Near(v, Thou(num, den), 1)
RECURSIVE Join(_, _)
Join(v, i) == IF i = 1 THEN ToString(v[1]) ELSE Join(v, i - 1) \o ", " \o ToString(v[i])
Text(v, m) ==
    (IF m[2] > 0 THEN ToString(m[2]) \o ":[" ELSE "[") \o Join(v, Len(v)) \o (IF m[1] # -999 THEN ", " \o ToString(m[1]) \o "]" ELSE "]")

Select(v, feats) ==
    LET s == SortSeq(feats, LAMBDA a, b : a < b) IN [i \in DOMAIN s |-> v[s[i]]]
\* the registers after an operation; <<>> where the outcome is not followed
After(ev) ==
    CASE ev.e = "new" -> ev.xs
      [] ev.e \in {"copy", "assign"} -> [reg EXCEPT ![ev.d] = reg[ev.s]]
      [] ev.e = "set" -> [reg EXCEPT ![ev.d][ev.i] = ev.v]
      [] ev.e = "fill" -> [reg EXCEPT ![ev.d] = [i \in DOMAIN reg[ev.d] |-> ev.v]]
      [] ev.e = "sel" -> [reg EXCEPT ![ev.d] = Select(reg[ev.s], ev.feats)]
      [] ev.e \in {"let", "build"} -> [reg EXCEPT ![ev.d] = Value(reg, ev.code)]
      [] ev.e = "upd" -> LET e == Value(reg, ev.code) IN [reg EXCEPT ![ev.d] = [i \in DOMAIN reg[ev.d] |-> Ap(ev.o, reg[ev.d][i], e[i])]]
      [] ev.e = "upds" -> [reg EXCEPT ![ev.d] = [i \in DOMAIN reg[ev.d] |-> Ap(ev.o, reg[ev.d][i], ev.v)]]
      [] OTHER -> reg
\* label, id and multiplier; what happens to those of a point that is given other coordinates is not specified
MetaAfter(ev) ==
    CASE ev.e = "new" -> [k \in 1..3 |-> <<ev.ys[k], ev.ids[k], ev.als[k]>>]
      [] ev.e \in {"copy", "sel"} -> [meta EXCEPT ![ev.d] = meta[ev.s]]
      [] ev.e \in {"assign", "fill", "let", "build"} -> [meta EXCEPT ![ev.d] = None]
      [] OTHER -> meta
Says == {"new", "copy", "assign", "set", "fill", "sel", "let", "build", "upd", "upds"}

StateBad(ev) ==
    LET r == After(ev) m == MetaAfter(ev) IN
    Clause("C26", "a point does not hold the values it was given", \A k \in 1..3 : Whole(r[k]) => ev.r[k] = r[k]) \cup
    Clause("C26", "a copied point lost its label, id or multiplier", \A k \in 1..3 : m[k] # None => ev.m[k] = m[k]) \cup
    Clause("C26", "a point is written differently",
           \A k \in 1..3 : (m[k] # None /\ ev.m[k] = m[k] /\ ev.r[k] = r[k] /\ \A i \in DOMAIN r[k] : r[k][i] # 0) => ev.text[k] = Text(r[k], m[k]))

RedBad(ev) ==
    LET v == Value(reg, ev.code) n == Len(v) IN
    IF ~Whole(v) \/ n = 0 THEN {} ELSE
    Clause("C26", "the expression has another size", ev.n = n) \cup
    Clause("C26", "the sum is wrong", ev.sum = Sum(v) /\ (Linf(v) < 10000 => ev.sq = Dot(v, v))) \cup
    Clause("C26", "the largest or the smallest element is wrong", ev.max = Max(v) /\ ev.min = Min(v)) \cup
    Clause("C26", "a norm is wrong", ev.l1 = 1000 * L1(v) /\ ev.linf = 1000 * Linf(v) /\ (Linf(v) < 500 => Told(ev.l2, Dot(v, v), 1))) \cup
    Clause("C26", "the mean is wrong", Told(ev.mean, Sum(v), n)) \cup
    (IF Linf(v) > 300 THEN {} ELSE
     Clause("C26", "the variance or the standard deviation is wrong", Told(ev.var, Var(v), n * n) /\ Told(ev.std, Var(v), n * n)))

PairBad(ev) ==
    LET p == reg[ev.a] q == reg[ev.b] n == Len(p) IN
    IF ~Whole(p) \/ ~Whole(q) \/ Linf(p) > 300 \/ Linf(q) > 300 THEN {} ELSE
    Clause("C26", "the dot product is wrong", ev.dot = Dot(p, q)) \cup
    Clause("C26", "points compare wrongly", ev.eq = (p = q) /\ ev.ne = (p # q)) \cup
    Clause("C26", "the covariance is wrong", n > 1 => Told(ev.cov, Cov(p, q), n * (n - 1)))

NormBad(ev) ==
    LET p == reg[ev.a]
        ok(v) == \A i \in DOMAIN p :
            IF ev.q = 1 THEN Near(v[i], (10000 * p[i]) \div L1(p), 1)
            ELSE v[i] * p[i] >= 0 /\ Near((v[i] * v[i]) \div 10000, (10000 * p[i] * p[i]) \div Dot(p, p), 4) IN
    IF ~Whole(p) \/ Linf(p) > 400 \/ Linf(p) = 0 THEN {} ELSE
    Clause("C26", "normalising is wrong", Len(ev.v) = Len(p) /\ ok(ev.v) /\ ev.v2 = ev.v /\ ev.v3 = ev.v)

DistBad(ev) ==
    UNION {LET e == Dist(m, ev.x, ev.y) IN
           IF ~Applies(m, ev.x, ev.y) \/ e = Big THEN {}
           ELSE Clause("C26", "the distance is not that of its definition: " \o m, Near(ev.v[m], e, Slack(m, ev.x))) : m \in Names}

StatBad(ev) ==
    LET n == Len(ev.xs) dim == Len(ev.xs[1]) all == 1..dim f == Kept(ev.names, ev.f) S == {d \in all : \A i \in DOMAIN ev.feats : ev.names[d] # ev.feats[i]}
        two == Class(ev.ys, TRUE) # {} /\ Class(ev.ys, FALSE) # {} IN
    Clause("C26", "the mean of a feature is wrong", \A d \in all : Told(ev.mean[d], Sum(Col(ev.xs, d)), n)) \cup
    Clause("C26", "the standard deviation of a feature is wrong", \A d \in all : Told(ev.var[d], Var(Col(ev.xs, d)), Max2(1, n * (n - 1)))) \cup
    Clause("C26", "the variance of the data is wrong", Told(ev.total, SumOver([d \in all |-> Var(Col(ev.xs, d))], all), n * n)) \cup
    Clause("C26", "the radius is wrong", Near(ev.rad2, Radius2(ev.xs, all), 1) /\ Near(ev.rad2f, Radius2(ev.xs, f), 1)
                                         /\ ev.rad1 = 1000 * Largest(ev.xs, all) /\ ev.rad1f = 1000 * Largest(ev.xs, f)) \cup
    (IF ~two THEN {} ELSE
     Clause("C26", "the distance of the centres is wrong", Near(ev.cen, Centres(ev.xs, ev.ys, all), 1) /\ Near(ev.cenf, Centres(ev.xs, ev.ys, f), 1)) \cup
     Clause("C26", "the distance of the centres without some features is wrong", Near(ev.wof, Centres(ev.xs, ev.ys, S), 1))) \cup
    Clause("C26", "computing statistics changed the data", ev.kept) \cup Clause("C24", "computing statistics changed the data", ev.kept)

LineBad(ev) ==
    Clause("C26", "the values are not evenly spaced",
           Len(ev.v) = ev.n /\ \A i \in DOMAIN ev.v : Near(ev.v[i], 1000 * ev.lo + ((1000 * (i - 1) * (ev.hi - ev.lo)) \div (ev.n - 1)), 1))
RndBad(ev) ==
    Clause("C26", "random coordinates are out of range", ev.n = ev.size /\ ev.in) \cup
    Clause("C26", "equal seeds gave other coordinates", ev.same) \cup
    Clause("C28", "equal seeds gave other coordinates", ev.same) \cup
    Clause("C26", "the seed does not matter", ev.size > 2 => ev.other)
\* thousandths of the sine and the cosine of 0..7
Sin == <<0, 841, 909, 141, -757, -959, -279, 657>>
Cos == <<1000, 540, -416, -990, -654, 284, 960, 754>>
FunBad(ev) ==
    LET ok == \A i \in DOMAIN ev.x :
            /\ Near(ev.el[i], 1000 * ev.x[i], 1) /\ Near(ev.l[i], 1000 * ev.x[i] * ev.x[i], 1) /\ ev.one[i] = 1000
            /\ Near(ev.sin[i], Sin[ev.x[i] + 1], 1) /\ Near(ev.cos[i], Cos[ev.x[i] + 1], 1)
            /\ ev.c0[i] = 1000 /\ ev.s0[i] = 0 /\ ev.e0[i] = 1000 IN
    Clause("C26", "a function was not applied to every element", Len(ev.el) = Len(ev.x) /\ ok)

Failed(ev) ==
    IF ev.e = "crash" THEN CrashBad(ev) ELSE IF Has(ev, "exc") THEN ExcBad(ev) ELSE IF Has(ev, "skip") THEN {} ELSE
    CASE ev.e \in Says -> StateBad(ev)
      [] ev.e = "red" -> RedBad(ev)
      [] ev.e = "pair" -> PairBad(ev)
      [] ev.e = "norm" -> NormBad(ev)
      [] ev.e = "dist" -> DistBad(ev)
      [] ev.e = "stat" -> StatBad(ev)
      [] ev.e = "line" -> LineBad(ev)
      [] ev.e = "rnd" -> RndBad(ev)
      [] ev.e = "fun" -> FunBad(ev)
      [] OTHER -> {}

Dull == [k \in 1..3 |-> <<0>>]
TraceInit == l = 1 /\ reg = Dull /\ meta = [k \in 1..3 |-> None] /\ TLCSet(1, 0)
TraceNext ==
    /\ l <= Len(Trace)
    /\ LET ev == Trace[l] IN
       IF ev.e = "begin" THEN reg' = Dull /\ meta' = [k \in 1..3 |-> None]
       ELSE /\ Judge(ev, Failed(ev))
            /\ IF ev.e \in Says /\ ~Has(ev, "skip") /\ ~Has(ev, "exc")
               THEN reg' = After(ev) /\ meta' = MetaAfter(ev)
               ELSE UNCHANGED <<reg, meta>>
    /\ l' = l + 1
TraceSpec == TraceInit /\ [][TraceNext]_vars
TraceAccepted == Accepted
=============================================================================
