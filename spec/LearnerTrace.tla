----------------------------- MODULE LearnerTrace -----------------------------
(* Judges recorded lives of learners (who may change which dataset, what the *)
(* answers may depend on), recorded calls of everything that takes a seed,   *)
(* and generated datasets.                                                   *)
EXTENDS TraceCommon
VARIABLES l, now, lr, memo, calls
vars == <<l, now, lr, memo, calls>>

None == -1
NoLearner == [type |-> "", seed |-> 0, con |-> 0, src |-> 0, touched |-> FALSE, state |-> "none", ans |-> None]
\* learners that draw random numbers; a committee cannot be given a seed
Random == {"kmeans", "kmeanspp", "bag", "balanced", "committee"}
Same(r) == r.type \notin Random \/ (r.seed # 0 /\ r.type # "committee")
Key(r) == <<r.type, IF r.type \in Random THEN r.seed ELSE 0, r.con>>
Look(m, k) == {p \in m : p[1] = k}

\* the learner after the event
Step(ev, r) ==
    CASE ev.e = "mk" -> [type |-> ev.type, seed |-> ev.seed, con |-> ev.con[ev.d], src |-> ev.d, touched |-> FALSE, state |-> "fresh", ans |-> None]
      [] ev.e = "give" -> [r EXCEPT !.con = ev.con[ev.d], !.src = ev.d, !.touched = FALSE, !.state = IF @ = "fresh" THEN "fresh" ELSE "given", !.ans = None]
      [] ev.e = "train" -> [r EXCEPT !.state = IF @ = "fresh" THEN "trained" ELSE "again", !.ans = None]
      [] ev.e = "ask" -> [r EXCEPT !.ans = IF r.state \in {"trained", "again"} THEN ev.ans ELSE @]
      [] OTHER -> r
Owned == {"mk", "give", "train", "ask"}
NewLr(ev) ==
    IF ev.e \in Owned THEN [lr EXCEPT ![ev.l] = Step(ev, @)]
    ELSE IF ev.e \in {"change", "data"} THEN [i \in DOMAIN lr |-> IF lr[i].src = ev.d THEN [lr[i] EXCEPT !.touched = TRUE] ELSE lr[i]]
    ELSE lr
Asked(ev) == ev.e = "ask" /\ lr[ev.l].state = "trained"
NewMemo(ev) == IF Asked(ev) /\ Same(lr[ev.l]) THEN memo \cup {<<Key(lr[ev.l]), ev.ans>>} ELSE memo
CallKey(ev) == <<ev.f, ev.seed, ev.con[ev.d]>>
NewCalls(ev) == IF ev.e = "call" /\ ev.seed # 0 THEN calls \cup {<<CallKey(ev), ev.res>>} ELSE calls

LifeBad(ev) ==
    Clause("C24", "the caller's data changed in " \o ev.e,
           \A d \in 1..2 : now[d] # 0 /\ ~(ev.e \in {"data", "change"} /\ ev.d = d) => ev.now[d] = now[d]) \cup
    (IF ev.e # "ask" THEN {} ELSE LET r == lr[ev.l] IN
     Clause("C24", "a trained model answered differently when asked again", r.state \in {"trained", "again"} /\ r.ans # None => ev.ans = r.ans) \cup
     (IF ~(Asked(ev) /\ Same(r)) THEN {} ELSE
      Clause("C24", "changing the caller's dataset changed what a learner answers",
             (r.touched /\ r.type \notin Random) => \A p \in Look(memo, Key(r)) : p[2] = ev.ans) \cup
      Clause("C28", "training twice on the same data with the same seed gave two models", \A p \in Look(memo, Key(r)) : p[2] = ev.ans))) \cup
    (IF ev.e # "call" THEN {} ELSE
     Clause("C28", "the same call with the same seed gave another result", ev.seed # 0 => \A p \in Look(calls, CallKey(ev)) : p[2] = ev.res))

----------------------------------------------------------------------------
Abs(v) == IF v < 0 THEN -v ELSE v
Label(k, c) == IF k = 2 THEN IF c = 1 THEN -1 ELSE 1 ELSE c
Ordered(ev) == \A i \in DOMAIN ev.pts : ev.pts[i].id = i
OfClass(ev, y) == {i \in DOMAIN ev.pts : ev.pts[i].y = y}
\* the point of class c that belongs to the j-th point of the first class (without shuffling)
SpiralsBad(ev) ==
    LET per == ev.n \div ev.k
        size == per * ev.k
        at(c, j) == ev.pts[(c - 1) * per + j].x
        near(a, b) == Abs(a[1] - b[1]) <= 1 /\ Abs(a[2] - b[2]) <= 1 IN
    Clause("C29", "the dataset does not have the requested number of points", Len(ev.pts) = size) \cup
    (IF Len(ev.pts) # size THEN {} ELSE
     Clause("C29", "ids do not number the points", Ordered(ev)) \cup
     Clause("C29", "points do not have two coordinates", ev.dim = 2 /\ \A i \in DOMAIN ev.pts : Len(ev.pts[i].x) = 2) \cup
     Clause("C29", "the classes are not equally large", \A c \in 1..ev.k : Cardinality(OfClass(ev, Label(ev.k, c))) = per) \cup
     Clause("C29", "the class list does not count the points", Len(ev.cls) = Len(ev.dist) /\ Len(ev.cls) = ev.k
            /\ \A i \in DOMAIN ev.cls : ev.dist[i] = Cardinality(OfClass(ev, ev.cls[i]))) \cup
     Clause("C29", "spirals without noise are not turned copies of each other",
            (ev.noise = 0 /\ ~ev.sh /\ ev.k \in {2, 4}) => \A j \in 1..per :
                LET a == at(1, j) IN
                IF ev.k = 2 THEN near(at(2, j), <<-a[1], -a[2]>>)
                ELSE near(at(2, j), <<-a[2], a[1]>>) /\ near(at(3, j), <<-a[1], -a[2]>>) /\ near(at(4, j), <<a[2], -a[1]>>)))
\* blobs with a deviation of a millionth stay at their centres
Close(x, c) == Len(x) = Len(c) /\ \A i \in DOMAIN x : Abs(x[i] - c[i]) <= 1
\* wanted[c]: number of points of blob c
BlobBad(ev, wanted, exact) ==
    LET k == Len(wanted)
        RECURSIVE Upto(_)
        Upto(c) == IF c = 0 THEN 0 ELSE Upto(c - 1) + wanted[c]
        size == Upto(k) IN
    Clause("C29", "the dataset does not have the requested number of points", Len(ev.pts) = size) \cup
    Clause("C29", "there is not one centre per blob", Len(ev.cen) = k) \cup
    (IF Len(ev.pts) # size \/ Len(ev.cen) # k THEN {} ELSE
     Clause("C29", "ids do not number the points", Ordered(ev)) \cup
     Clause("C29", "points do not have the requested dimension",
            (size > 0 => ev.dim = Len(ev.cen[1])) /\ \A i \in DOMAIN ev.pts : Len(ev.pts[i].x) = Len(ev.cen[1])) \cup
     Clause("C29", "the type of the dataset is wrong", ev.type = IF ev.cl THEN "Classification" ELSE "Clustering") \cup
     (IF ~ev.cl THEN {} ELSE
      Clause("C29", "a blob does not have its number of points", \A c \in 1..k : Cardinality(OfClass(ev, Label(k, c))) = wanted[c]) \cup
      Clause("C29", "the class list does not count the points", Len(ev.cls) = Len(ev.dist)
             /\ \A i \in DOMAIN ev.cls : ev.dist[i] = Cardinality(OfClass(ev, ev.cls[i]))) \cup
      Clause("C29", "a point is not where its centre is", exact => \A c \in 1..k : \A i \in OfClass(ev, Label(k, c)) : Close(ev.pts[i].x, ev.cen[c]))) \cup
     Clause("C29", "a point is not where any centre is", exact => \A i \in DOMAIN ev.pts : \E c \in 1..k : Close(ev.pts[i].x, ev.cen[c])))
BlobsBad(ev) ==
    BlobBad(ev, [c \in 1..ev.k |-> ev.n], ev.sd = 1) \cup
    Clause("C29", "a centre is outside its range", \A c \in DOMAIN ev.cen : Len(ev.cen[c]) = ev.dims /\ \A i \in DOMAIN ev.cen[c] : 100 * ev.lo <= ev.cen[c][i] /\ ev.cen[c][i] <= 100 * ev.hi)
BlobsAtBad(ev) ==
    BlobBad(ev, ev.ns, \A i \in DOMAIN ev.sds : ev.sds[i] = 1) \cup
    Clause("C29", "the centres are not the ones asked for", ev.cen = [c \in DOMAIN ev.cs |-> [i \in DOMAIN ev.cs[c] |-> 100 * ev.cs[c][i]]])
RegrBad(ev) ==
    Clause("C29", "the dataset does not have the requested number of points", Len(ev.gids) = ev.n) \cup
    Clause("C29", "points do not have the requested dimension", ev.dimOut = ev.dims /\ \A i \in DOMAIN ev.lens : ev.lens[i] = ev.dims) \cup
    Clause("C29", "ids do not name the points", {ev.gids[i] : i \in DOMAIN ev.gids} = 1..ev.n /\ (~ev.sh => \A i \in DOMAIN ev.gids : ev.gids[i] = i)) \cup
    Clause("C29", "a feature that is not informative has a coefficient", Len(ev.coef) = ev.dims /\ \A i \in DOMAIN ev.coef : i > ev.inf => ev.coef[i] = 0) \cup
    Clause("C29", "without noise a target is not the linear function of its point", ev.noise = 0 => \A i \in DOMAIN ev.res : Abs(ev.res[i]) <= 1) \cup
    Clause("C29", "the type of the dataset is wrong", ev.type = "Regression")

Life == {"data", "queries", "change", "mk", "give", "train", "ask", "noise", "call"}
Failed(ev) ==
    IF ev.e = "crash" THEN CrashBad(ev) ELSE IF Has(ev, "exc") THEN ExcBad(ev) ELSE
    CASE ev.e \in Life -> LifeBad(ev)
      [] ev.e = "spirals" -> SpiralsBad(ev)
      [] ev.e = "blobs" -> BlobsBad(ev)
      [] ev.e = "blobsat" -> BlobsAtBad(ev)
      [] ev.e = "regr" -> RegrBad(ev)
      [] OTHER -> {}

Nobody == [i \in 1..3 |-> NoLearner]
TraceInit == l = 1 /\ TLCSet(1, 0) /\ now = <<0, 0>> /\ lr = Nobody /\ memo = {} /\ calls = {}
TraceNext ==
    /\ l <= Len(Trace)
    /\ l' = l + 1
    /\ LET ev == Trace[l] IN
       IF ev.e = "begin" THEN now' = <<0, 0>> /\ lr' = Nobody /\ memo' = {} /\ calls' = {}
       ELSE /\ Judge(ev, Failed(ev))
            /\ IF ev.e \in Life /\ Has(ev, "now")
               THEN now' = ev.now /\ lr' = NewLr(ev) /\ memo' = NewMemo(ev) /\ calls' = NewCalls(ev)
               ELSE UNCHANGED <<now, lr, memo, calls>>
TraceSpec == TraceInit /\ [][TraceNext]_vars
TraceAccepted == Accepted
=============================================================================
