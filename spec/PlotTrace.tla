------------------------------ MODULE PlotTrace ------------------------------
(* Judges recorded plotting calls: what they wrote to the plotting program   *)
(* is obeyed here, and the pictures compared with the datasets and models.   *)
EXTENDS Plot, TraceCommon
VARIABLES l, m
Abs(v) == IF v < 0 THEN -v ELSE v
Range(s) == {s[i] : i \in DOMAIN s}
MinOf(S) == CHOOSE v \in S : \A u \in S : v <= u
MaxOf(S) == CHOOSE v \in S : \A u \in S : v >= u
Get(f, k, d) == IF k \in DOMAIN f THEN f[k] ELSE d

\* the pictures drawn by statements of several programs, one after the other
RECURSIVE Obeyed(_, _, _, _)
Obeyed(ses, ts, i, pics) ==
    IF i > Len(ts) THEN [ses |-> ses, pics |-> pics]
    ELSE LET t == ts[i] s == Get(ses, t.s, Fresh) IN
         Obeyed((t.s :> Apply(s, t)) @@ ses, ts, i + 1, IF Draws(t) THEN Append(pics, Picture(s, t)) ELSE pics)

(* ------------------------- what a call asks for ------------------------- *)
Flat(k) == k \in {"1r", "1rh", "2", "2v", "2h"}
Deep(k) == k \in {"2r", "2rh", "3", "3v", "3h"}
ByClass(k) == k \in {"2", "2h", "3", "3h", "ds"}
Vectors(k) == k \in {"2v", "3v"}
Dim(d) == Len(d.xs) \div Len(d.ids)
X(d, i, f) == d.xs[(i - 1) * Dim(d) + f + 1]
Size(d) == Len(d.ids)
Label(d, i) == d.ys[i] * (IF d.kind = 0 THEN 100 ELSE 1)
\* the values on an axis
Axis(ev, d, a) ==
    CASE Vectors(ev.kind) -> IF a = 1 THEN ev.v1 ELSE IF a = 2 THEN ev.v2 ELSE ev.v3
      [] ev.kind \in {"1r", "1rh"} -> IF a = 1 THEN [i \in 1..Size(d) |-> X(d, i, ev.x)] ELSE [i \in 1..Size(d) |-> Label(d, i)]
      [] ev.kind \in {"2r", "2rh"} -> [i \in 1..Size(d) |-> IF a = 1 THEN X(d, i, ev.x) ELSE IF a = 2 THEN X(d, i, ev.y) ELSE Label(d, i)]
      [] OTHER -> [i \in 1..Size(d) |-> X(d, i, IF a = 1 THEN ev.x ELSE IF a = 2 THEN ev.y ELSE ev.z)]
Axes(k) == IF Deep(k) THEN 3 ELSE 2
Row(ev, d, i) == [a \in 1..Axes(ev.kind) |-> Axis(ev, d, a)[i]]
Count(ev, d) == IF Vectors(ev.kind) THEN Len(ev.v1) ELSE Size(d)
\* axes whose limits a call sets
Limited(k) == IF k \in {"1r", "1rh", "2r", "2rh"} THEN {1} ELSE IF k = "3" \/ k = "3v" \/ k = "3h" THEN {1, 2, 3} ELSE {1, 2}
AxisName(a) == IF a = 1 THEN "xrange" ELSE IF a = 2 THEN "yrange" ELSE "zrange"
\* values (hundredths, times ten) to be within the limits: the points, and around them by the scale
Lowest(ev, d, a) == LET v == MinOf(Range(Axis(ev, d, a))) IN 10 * v - (ev.scale - 10) * Abs(v)
Highest(ev, d, a) == LET v == MaxOf(Range(Axis(ev, d, a))) IN 10 * v + (ev.scale - 10) * Abs(v)
Contains(ev, d, a, r) == r[1] < r[2] /\ 10 * r[1] <= Lowest(ev, d, a) /\ 10 * r[2] >= Highest(ev, d, a)
\* limits are whole numbers next to the values
Close(ev, d, a, r) == 10 * r[1] >= Lowest(ev, d, a) - 2000 /\ 10 * r[2] <= Highest(ev, d, a) + 2000

SameBag(a, b) == Len(a) = Len(b) /\ \A r \in Range(a) \cup Range(b) : Cardinality({i \in DOMAIN a : a[i] = r}) = Cardinality({i \in DOMAIN b : b[i] = r})
Members(d, c) == SelectSeq([i \in 1..Size(d) |-> i], LAMBDA i : d.ys[i] = c)
ClassRows(ev, d, c) == LET ix == Members(d, c) IN [j \in DOMAIN ix |-> Row(ev, d, ix[j])]
AllRows(ev, d) == [i \in 1..Count(ev, d) |-> Row(ev, d, i)]
Short(rows, n) == [j \in DOMAIN rows |-> SubSeq(rows[j], 1, n)]

\* lines and planes: the hyperplane w . p + b = shift, solved for the last axis, or the value of a regressor
Shifts(ev) == IF ev.margin = 0 THEN {0} ELSE {-1, 0, 1}
W(ev, a) == ev.w[1 + (IF a = 1 THEN ev.x ELSE IF a = 2 THEN ev.y ELSE ev.z)]
Solves(ev, r, h) ==
    CASE ev.kind = "2h" -> LET n == W(ev, 2) IN
           Abs(r[1] * n + 1000 * W(ev, 1)) <= Abs(n) /\ r[2] = 0 /\ Abs(r[3] * n + 1000 * ev.b + 10 * h * ev.margin * ev.norm) <= Abs(n)
      [] ev.kind = "3h" -> LET n == W(ev, 3) IN
           Abs(r[1] * n + 1000 * W(ev, 1)) <= Abs(n) /\ Abs(r[2] * n + 1000 * W(ev, 2)) <= Abs(n) /\ Abs(r[3] * n + 1000 * ev.b + 10 * h * ev.margin * ev.norm) <= Abs(n)
      [] ev.kind = "1rh" -> h = 0 /\ Abs(r[1] - 10 * W(ev, 1)) <= 1 /\ r[2] = 0 /\ Abs(r[3] - 10 * ev.b) <= 1
      [] ev.kind = "2rh" -> h = 0 /\ Abs(r[1] - 10 * W(ev, 1)) <= 1 /\ Abs(r[2] - 10 * W(ev, 2)) <= 1 /\ Abs(r[3] - 10 * ev.b) <= 1
Small(r) == \A i \in DOMAIN r : Abs(r[i]) < 2000000
Modelled(k) == k \in {"2h", "3h", "1rh", "2rh"}

\* the surface of a decision function: its value on a grid over the limits
Answered(ev, r) ==
    LET f == ev.fn[1] * r[1] + ev.fn[2] * r[2] + 100 * ev.fn[3] near == Abs(f) <= 1 + Abs(ev.fn[1]) + Abs(ev.fn[2]) IN
    r[3] = (IF f >= 0 THEN 200 ELSE -100) \/ (near /\ r[3] \in {200, -100})
SurfaceBad(ev, p, q) ==
    LET xr == p.set.xrange yr == p.set.yrange rs == q.rows IN
    Clause("C27", "a decision surface is not the values of the learner",
           Len(rs) = ev.grid * ev.grid /\ \A i \in DOMAIN rs : Len(rs[i]) = 3 /\ Answered(ev, rs[i])) \cup
    Clause("C27", "a decision surface does not cover the picture",
           Len(xr) = 2 /\ Len(yr) = 2 /\ Cardinality({<<r[1], r[2]>> : r \in Range(rs)}) = ev.grid * ev.grid /\
           \A x \in Range(xr), y \in Range(yr) : \E i \in DOMAIN rs : Abs(rs[i][1] - x) <= 1 /\ Abs(rs[i][2] - y) <= 1)

PictureBad(ev, d, term, p) ==
    LET s == p.set
        files == SelectSeq(p.series, LAMBDA q : q.file)
        marks == SelectSeq(p.series, LAMBDA q : ~q.file)
        points == IF ev.kind = "ds" /\ files # <<>> THEN Tail(files) ELSE files
        coef == [i \in DOMAIN marks |-> Value(s.funs, marks[i].n)] IN
    Clause("C27", "the title is not the one asked for", s.title = ev.title) \cup
    Clause("C27", "a label is not the one asked for",
           s.xlabel = ev.xl /\ s.ylabel = ev.yl /\ (Deep(ev.kind) => s.zlabel = ev.zl)) \cup
    Clause("C27", "the picture does not go where it was asked for",
           IF ev.save = 1 THEN s.terminal = ev.fmt /\ s.ext = ev.fmt /\ s.output # None ELSE s.terminal = term /\ s.output = None) \cup
    Clause("C27", "the picture is flat instead of deep, or deep instead of flat", p.k = IF Flat(ev.kind) THEN "plot" ELSE "splot") \cup
    Clause("C27", "the limits of an axis leave points out",
           \A a \in 1..Axes(ev.kind) : LET r == s[AxisName(a)] IN IF r = <<>> THEN a \notin Limited(ev.kind) ELSE Len(r) = 2 /\ Contains(ev, d, a, r)) \cup
    Clause("C27", "the limits of an axis are far from the points",
           \A a \in Limited(ev.kind) : LET r == s[AxisName(a)] IN Len(r) = 2 => Close(ev, d, a, r)) \cup
    Clause("C27", "a flat picture has limits of a third axis", Flat(ev.kind) => s.zrange = <<>>) \cup
    Clause("C27", "points are not drawn as points",
           /\ \A i \in DOMAIN points : points[i].style = IF ev.kind = "2v" THEN "linespoints" ELSE "points"
           /\ \A i \in DOMAIN marks : marks[i].style = "lines") \cup
    Clause("C27", "a file of points was not there when it was read", \A i \in DOMAIN files : ~files[i].missing) \cup
    (IF ByClass(ev.kind)
     THEN Clause("C27", "the classes on the picture are not those of the data",
                 /\ Len(points) = Len(d.cn)
                 /\ \A c \in DOMAIN d.cn : \E i \in DOMAIN points : points[i].title = d.cn[c]) \cup
          Clause("C27", "the points of a class are not those of the data",
                 \A c \in DOMAIN d.cn : \A i \in DOMAIN points : points[i].title = d.cn[c] =>
                     SameBag(IF ev.kind = "ds" THEN Short(points[i].rows, 2) ELSE points[i].rows, ClassRows(ev, d, d.classes[c])))
     ELSE Clause("C27", "the points on the picture are not those of the data",
                 Len(points) = 1 /\ IF ev.kind = "2v" THEN points[1].rows = AllRows(ev, d) ELSE SameBag(points[1].rows, AllRows(ev, d)))) \cup
    (IF Modelled(ev.kind)
     THEN Clause("C27", "the line or plane on the picture is not that of the model",
                 /\ \A i \in DOMAIN marks : Len(coef[i]) = 3 /\ Small(coef[i]) /\ \E h \in Shifts(ev) : Solves(ev, coef[i], h)
                 /\ \A h \in (IF ev.kind \in {"1rh", "2rh"} THEN {0} ELSE Shifts(ev)) : \E i \in DOMAIN marks : Len(coef[i]) = 3 /\ Small(coef[i]) /\ Solves(ev, coef[i], h))
     ELSE Clause("C27", "something that was not asked for is on the picture", marks = <<>>)) \cup
    (IF ev.kind = "ds"
     THEN Clause("C27", "a decision surface has other colours than the classes",
                 s.pm3d /\ s.cbrange = <<100 * MinOf(Range(d.classes)), 100 * MaxOf(Range(d.classes))>>) \cup
          (IF files = <<>> THEN {} ELSE SurfaceBad(ev, p, files[1]))
     ELSE Clause("C27", "something that was not asked for is on the picture", ~s.pm3d))

LearnerBad(ev, d) ==
    IF ev.kind # "ds" THEN {} ELSE
    Clause("C27", "the learner was not given the features asked for",
           /\ Len(ev.given) = Size(d)
           /\ \A i \in DOMAIN ev.given : ev.given[i].x = <<X(d, i, ev.x), X(d, i, ev.y)>> /\ ev.given[i].y = Label(d, i) /\ ev.given[i].id = d.ids[i]) \cup
    Clause("C27", "the learner was trained when it should not be, or not when it should", ev.ntrain = 1 - ev.trained)
\* calls of the same kind for other features are saved under other names
Same(a, b) == a.ev.kind = b.ev.kind /\ a.d = b.d /\ a.ev.fmt = b.ev.fmt
OutputBad(a, done) ==
    Clause("C27", "plots of different features are saved under one name",
           (a.ev.save = 1 /\ a.ev.kind \in {"2", "2h", "3", "3h"}) =>
               \A b \in done : (b.ev.save = 1 /\ Same(a, b) /\ b.name = a.name) => (b.ev.x = a.ev.x /\ b.ev.y = a.ev.y /\ (Deep(a.ev.kind) => b.ev.z = a.ev.z)))

(* ------------------------------- the session ----------------------------- *)
Clean == [data |-> <<>>, cur |-> <<>>, ses |-> <<>>, done |-> {}]
Nothing == [xs |-> <<>>, ids |-> <<0>>, ys |-> <<0>>, kind |-> 0, classes |-> <<>>, cn |-> <<>>]
At(d) == Get(m.data, d, Nothing)
OpenedAs(ev) == [d |-> ev.d, term |-> "wxt", shared |-> ev.shared, keep |-> ev.keep, late |-> ev.late, want |-> <<>>, n |-> IF ev.d < 0 THEN 0 ELSE 1, saved |-> 0]
\* the pictures of a call are drawn by the time it returns, unless the program obeys late
Later(c) == c.late = 1 /\ c.shared = 1
Tidy(ev) ==
    Clause("C27", "folders of others were removed", ev.lost = 0) \cup
    Clause("C27", "files were left where they should not be", ev.extra = 0)
Asked(ev, c) == [ev |-> ev, d |-> c.d, term |-> c.term, name |-> None]
Shown(w, p) == PictureBad(w.ev, At(w.d), w.term, p)
Pairs(ws, ps) == UNION {Shown(ws[i], ps[i]) : i \in 1..(IF Len(ws) < Len(ps) THEN Len(ws) ELSE Len(ps))}
Failed(ev) ==
    IF ev.e = "crash" THEN CrashBad(ev) ELSE IF Has(ev, "exc") THEN ExcBad(ev) ELSE IF Has(ev, "skip") THEN {} ELSE
    CASE ev.e = "plot" ->
           LET c == m.cur[ev.p] o == Obeyed(m.ses, ev.sent, 1, <<>>) r == Obeyed(<<>>, ev.ret, 1, <<>>) w == Asked(ev, c) IN
           Tidy(ev) \cup LearnerBad(ev, At(c.d)) \cup
           Clause("C27", "the call did not draw one picture", Len(o.pics) = IF Later(c) THEN 0 ELSE 1) \cup
           Pairs(<<w>>, o.pics) \cup
           (IF o.pics = <<>> THEN {} ELSE OutputBad([w EXCEPT !.name = o.pics[1].set.output], m.done)) \cup
           Clause("C27", "the script that was returned does not draw the picture",
                  Len(r.pics) = 1 /\ (Len(r.pics) = 1 => Shown(w, r.pics[1]) = {}))
      [] ev.e = "close" ->
           LET c == m.cur[ev.p] o == Obeyed(m.ses, ev.sent, 1, <<>>) IN
           Tidy(ev) \cup
           Clause("C27", "a call did not draw one picture", Len(o.pics) = Len(c.want)) \cup
           Pairs(c.want, o.pics) \cup
           Clause("C27", "folders of the plotter were left", ev.left = 0) \cup
           Clause("C27", "files that were to be kept were not, or others were", c.saved + ev.saved = IF c.keep = 1 THEN c.n ELSE 0)
      [] ev.e \in {"open", "sample", "term"} -> Tidy(ev)
      [] OTHER -> {}
After(ev) ==
    LET s == IF Has(ev, "sent") THEN Obeyed(m.ses, ev.sent, 1, <<>>).ses ELSE m.ses IN
    CASE ev.e = "data" -> [m EXCEPT !.data = (ev.d :> ev) @@ m.data]
      [] ev.e = "open" -> [m EXCEPT !.cur = (ev.p :> OpenedAs(ev)) @@ m.cur, !.ses = s]
      [] ev.e = "sample" -> [m EXCEPT !.cur[ev.p].d = ev.d, !.cur[ev.p].n = @ + 1, !.cur[ev.p].saved = @ + ev.saved, !.ses = s]
      [] ev.e = "term" -> [m EXCEPT !.cur[ev.p].term = ev.t]
      [] ev.e = "plot" ->
           LET c == m.cur[ev.p] o == Obeyed(m.ses, ev.sent, 1, <<>>) w == Asked(ev, c) IN
           [m EXCEPT !.ses = s, !.cur[ev.p].want = IF Later(c) THEN Append(@, w) ELSE @, !.cur[ev.p].saved = @ + ev.saved,
                     !.done = IF o.pics = <<>> THEN @ ELSE @ \cup {[w EXCEPT !.name = o.pics[1].set.output]}]
      [] ev.e = "close" -> [m EXCEPT !.ses = s]
      [] OTHER -> m

TraceInit == l = 1 /\ m = Clean /\ TLCSet(1, 0)
TraceNext ==
    /\ l <= Len(Trace)
    /\ LET ev == Trace[l] IN
       /\ IF ev.e = "begin" THEN TRUE ELSE Judge(ev, Failed(ev))
       /\ m' = IF ev.e = "begin" THEN Clean ELSE IF ev.e = "crash" \/ Has(ev, "exc") THEN m ELSE After(ev)
    /\ l' = l + 1
TraceSpec == TraceInit /\ [][TraceNext]_<<l, m>>
TraceAccepted == Accepted
=============================================================================
