------------------------------ MODULE DataSet ------------------------------
(* The dataset of the toolkit: a sequence of points (id, label y, features   *)
(* x) together with the redundant description the library maintains          *)
(* incrementally (class list, class counts, feature names). One operator per *)
(* public operation gives its post-state; operations whose outcome depends   *)
(* on a random seed are given as relations. The exhaustive model DataSetMC   *)
(* and the trace specification DataTrace share these operators.              *)
EXTENDS Integers, Sequences, FiniteSets

----------------------------------------------------------------------------
(* Sequences *)
Rng(s) == {s[i] : i \in DOMAIN s}
CountOf(s, v) == Cardinality({i \in DOMAIN s : s[i] = v})
PosOf(s, v) == IF \E i \in DOMAIN s : s[i] = v
               THEN CHOOSE i \in DOMAIN s : s[i] = v /\ \A j \in DOMAIN s : s[j] = v => i <= j
               ELSE 0
Filter(s, Keep(_)) == SelectSeq(s, Keep)
SameBag(a, b) == /\ Len(a) = Len(b)
                 /\ \A v \in Rng(a) \cup Rng(b) : CountOf(a, v) = CountOf(b, v)
SubBag(a, b) == \A v \in Rng(a) : CountOf(a, v) <= CountOf(b, v)
Distinct(s) == Cardinality(Rng(s)) = Len(s)
RemoveAt(s, i) == SubSeq(s, 1, i - 1) \o SubSeq(s, i + 1, Len(s))
Max2(a, b) == IF a > b THEN a ELSE b
Min2(a, b) == IF a < b THEN a ELSE b
RECURSIVE Flat(_)
Flat(ss) == IF ss = <<>> THEN <<>> ELSE Head(ss) \o Flat(Tail(ss))
RECURSIVE SumSeq(_)
SumSeq(s) == IF s = <<>> THEN 0 ELSE Head(s) + SumSeq(Tail(s))
Iota(n) == [i \in 1..n |-> i]
RECURSIVE SortedInts(_)
SortedInts(s) == IF s = <<>> THEN <<>>
                 ELSE LET m == CHOOSE v \in Rng(s) : \A w \in Rng(s) : v <= w
                          k == PosOf(s, m)
                      IN <<m>> \o SortedInts(RemoveAt(s, k))

----------------------------------------------------------------------------
(* Points and datasets *)
Ys(pts) == [i \in DOMAIN pts |-> pts[i].y]
Ids(pts) == [i \in DOMAIN pts |-> pts[i].id]
Tag(p) == p.x[1]               \* generators give every point a distinct first feature
Content(p) == <<p.y, p.x>>      \* what renumbering never changes
Contents(pts) == [i \in DOMAIN pts |-> Content(pts[i])]
Full(p) == <<p.id, p.y, p.x>>
Fulls(pts) == [i \in DOMAIN pts |-> Full(pts[i])]

Empty == [pts |-> <<>>, cls |-> <<>>, dist |-> <<>>, fn |-> <<>>, typ |-> "C"]

CountClass(pts, c) == Cardinality({i \in DOMAIN pts : pts[i].y = c})

(* C01: the description agrees with the points *)
ClassesListedOnce(d) == Distinct(d.cls) /\ \A i \in DOMAIN d.pts : d.pts[i].y \in Rng(d.cls)
CountsExact(d) == /\ Len(d.dist) = Len(d.cls)
                  /\ \A i \in DOMAIN d.cls : d.dist[i] = CountClass(d.pts, d.cls[i])
OneDimension(d) == \A i \in DOMAIN d.pts : Len(d.pts[i].x) = Len(d.pts[1].x)
NamesMatchColumns(d) == d.pts # <<>> => Len(d.fn) = Len(d.pts[1].x)
WellFormed(d) == /\ OneDimension(d)
                 /\ NamesMatchColumns(d)
                 /\ d.typ = "C" => ClassesListedOnce(d) /\ CountsExact(d)

----------------------------------------------------------------------------
(* Class bookkeeping, maintained incrementally like the library does *)
AddClass(d, y) ==
    IF d.typ # "C" THEN d
    ELSE LET p == PosOf(d.cls, y) IN
         IF p = 0 THEN [d EXCEPT !.cls = Append(@, y), !.dist = Append(@, 1)]
         ELSE [d EXCEPT !.dist[p] = @ + 1]
DropClass(d, y) ==
    LET p == PosOf(d.cls, y) IN
    IF d.typ = "C" /\ p # 0 /\ p <= Len(d.dist) THEN [d EXCEPT !.dist[p] = @ - 1] ELSE d

(* C05: insertion *)
InsOk(d, p) == d.pts = <<>> \/ Len(p.x) = Len(d.pts[1].x)
NewPoint(d, p, keep) == IF keep THEN p ELSE [p EXCEPT !.id = Len(d.pts) + 1]
Ins(d, p, keep) ==
    IF ~InsOk(d, p) THEN d
    ELSE LET e == AddClass(d, p.y) IN
         [e EXCEPT !.pts = Append(@, NewPoint(d, p, keep)),
                   !.fn = IF Len(@) # Len(p.x) THEN Iota(Len(p.x)) ELSE @]
RECURSIVE InsAll(_, _, _)
InsAll(d, ps, keep) == IF ps = <<>> THEN d ELSE InsAll(Ins(d, Head(ps), keep), Tail(ps), keep)

(* C02: removal by id; a dataset never loses its last point *)
FirstWithId(pts, id) == PosOf(Ids(pts), id)
RmFires(d, id) == Len(d.pts) > 1 /\ FirstWithId(d.pts, id) # 0
Rm(d, id) ==
    IF ~RmFires(d, id) THEN d
    ELSE LET i == FirstWithId(d.pts, id) IN
         [DropClass(d, d.pts[i].y) EXCEPT !.pts = RemoveAt(@, i)]
Survivors(pts, ids) == Filter(pts, LAMBDA p : p.id \notin ids)
\* removing every point is refused for one point: which one is not promised
RmmOk(before, after, ids) ==
    IF Survivors(before, ids) # <<>> \/ before = <<>>
    THEN after = Survivors(before, ids)
    ELSE Len(after) = 1 /\ after[1] \in Rng(before)
RECURSIVE RmEach(_, _)
RmEach(d, ids) ==            \* the design: points are visited in order
    IF ids = {} \/ Len(d.pts) <= 1 THEN d
    ELSE LET hit == {i \in DOMAIN d.pts : d.pts[i].id \in ids} IN
         IF hit = {} THEN d
         ELSE LET i == CHOOSE i \in hit : \A j \in hit : i <= j IN
              RmEach([DropClass(d, d.pts[i].y) EXCEPT !.pts = RemoveAt(@, i)], ids)
Rmm(d, ids) == RmEach(d, ids)

(* C05: relabelling *)
UpdFires(d, i) == i >= 0 /\ i < Len(d.pts)
PruneClass(d, y) ==
    LET p == PosOf(d.cls, y) IN
    IF p # 0 /\ d.dist[p] = 0
    THEN [d EXCEPT !.cls = RemoveAt(@, p), !.dist = RemoveAt(@, p)] ELSE d
Upd(d, i, y) ==
    IF ~UpdFires(d, i) THEN d
    ELSE LET old == d.pts[i + 1].y
             e == IF d.typ = "C" THEN PruneClass(DropClass(AddClass(d, y), old), old) ELSE d
         IN [e EXCEPT !.pts[i + 1].y = y]

(* C05: joining appends the other dataset's points with labels and ids *)
RECURSIVE AddClasses(_, _)
AddClasses(d, ps) == IF ps = <<>> THEN d ELSE AddClasses(AddClass(d, Head(ps).y), Tail(ps))
Join(a, b) ==
    IF b.pts = <<>> THEN a
    ELSE LET e == AddClasses(a, b.pts)
             more == Filter(b.cls, LAMBDA c : c \notin Rng(e.cls))
         IN [e EXCEPT !.pts = @ \o b.pts,
                      !.cls = @ \o more, !.dist = @ \o [i \in DOMAIN more |-> 0],
                      !.fn = IF @ = <<>> THEN b.fn ELSE @]

(* C05: class extraction *)
OfClasses(pts, cs) == Filter(pts, LAMBDA p : p.y \in cs)
ClassesCopy(src, cs) ==
    LET ps == OfClasses(src.pts, Rng(cs)) IN
    [pts |-> ps, cls |-> cs, dist |-> [i \in DOMAIN cs |-> CountClass(ps, cs[i])],
     fn |-> src.fn, typ |-> src.typ]
Renumber(pts) == [i \in DOMAIN pts |-> [pts[i] EXCEPT !.id = i]]
ByClass(d, c, keep) ==
    LET ps == OfClasses(d.pts, {c}) IN IF keep THEN ps ELSE Renumber(ps)

(* C04: columns by name *)
ColsIn(fn, names) == Filter(Iota(Len(fn)), LAMBDA i : fn[i] \in names)
ColsOut(fn, names) == Filter(Iota(Len(fn)), LAMBDA i : fn[i] \notin names)
Pick(p, cols) == [p EXCEPT !.x = [k \in DOMAIN cols |-> p.x[cols[k]]]]
PickAll(pts, cols) == [i \in DOMAIN pts |-> Pick(pts[i], cols)]
NamesAt(fn, cols) == [k \in DOMAIN cols |-> fn[cols[k]]]
SelFeat(d, names) ==
    LET cols == ColsIn(d.fn, names) IN
    [d EXCEPT !.pts = PickAll(@, cols), !.fn = NamesAt(@, cols)]
RmFires2(d, names) == names # {} /\ Len(d.fn) > 1
RmFeat(d, names) ==
    IF ~RmFires2(d, names) THEN d
    ELSE LET cols == ColsOut(d.fn, names) IN
         [d EXCEPT !.pts = PickAll(@, cols), !.fn = NamesAt(@, cols)]

(* C07: shuffling and sampling *)
IsShuffle(before, after) == SameBag(Fulls(before), Fulls(after))
Share(d, c, size) == LET n == CountClass(d.pts, c) IN
                     IF n = 0 THEN 0 ELSE Max2(1, (n * size) \div Len(d.pts))
IsSample(d, sample, size, wr) ==
    /\ Rng(Contents(sample)) \subseteq Rng(Contents(d.pts))
    /\ \A c \in Rng(Ys(d.pts)) : CountClass(sample, c) = Share(d, c, size)
    /\ ~wr => SubBag(Contents(sample), Contents(d.pts))

(* C06: folds and train/test pairs *)
AllPoints(parts) == Flat([i \in DOMAIN parts |-> parts[i].pts])
IsPartition(d, parts) == SameBag(Contents(AllPoints(parts)), Contents(d.pts))
Balanced(parts, Size(_)) == \A i, j \in DOMAIN parts : Size(parts[i]) - Size(parts[j]) <= 1
Stratified(d, parts) ==
    \A c \in Rng(Ys(d.pts)) : Balanced(parts, LAMBDA q : CountClass(q.pts, c))
EvenSizes(parts) == Balanced(parts, LAMBDA q : Len(q.pts))
PairOk(d, pr) == /\ SameBag(Contents(pr.train.pts \o pr.test.pts), Contents(d.pts))
                 /\ Distinct(Contents(d.pts)) => Rng(Contents(pr.train.pts)) \cap Rng(Contents(pr.test.pts)) = {}
TestedOnce(d, prs) == SameBag(Contents(Flat([i \in DOMAIN prs |-> prs[i].test.pts])), Contents(d.pts))
KeepsIds(d, pts) == Rng(Fulls(pts)) \subseteq Rng(Fulls(d.pts))

(* C08: a file is a sequence of lines; the data format also stores names *)
FileOf(d, ext) == [ext |-> ext, fn |-> IF ext = "data" THEN d.fn ELSE Iota(Len(d.fn)),
                   lines |-> [i \in DOMAIN d.pts |-> [y |-> d.pts[i].y, x |-> d.pts[i].x]]]
FileContents(f) == [i \in DOMAIN f.lines |-> <<f.lines[i].y, f.lines[i].x>>]
RECURSIVE FirstSeen(_)
FirstSeen(ys) == IF ys = <<>> THEN <<>>
                 ELSE LET f == FirstSeen(SubSeq(ys, 1, Len(ys) - 1)) y == ys[Len(ys)] IN
                      IF y \in Rng(f) THEN f ELSE Append(f, y)
Loaded(f, typ) ==
    LET pts == [i \in DOMAIN f.lines |-> [id |-> i, y |-> f.lines[i].y, x |-> f.lines[i].x]]
        cls == IF typ = "C" THEN FirstSeen(Ys(pts)) ELSE <<>> IN
    [pts |-> pts, cls |-> cls, dist |-> [i \in DOMAIN cls |-> CountClass(pts, cls[i])], fn |-> f.fn, typ |-> typ]
=============================================================================
