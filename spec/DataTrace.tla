----------------------------- MODULE DataTrace -----------------------------
(* Trace specification of mltk::Data: every recorded call must be a step the *)
(* DataSet specification allows, clause by clause, for the property under    *)
(* check. S is the state of all dataset slots before the call, ev.st after.  *)
EXTENDS DataSet, TraceCommon

VARIABLES l, S, F     \* F: file name -> what it should contain

Slots(n) == [i \in 1..n |-> Empty]
Start(ev) == [i \in 1..3 |-> [pts |-> <<>>, cls |-> <<>>, nm |-> <<>>, dist |-> <<>>, fn |-> <<>>, ix |-> <<>>,
                              lab |-> <<>>, dim |-> 0, n |-> 0, emp |-> TRUE, typ |-> "C"]]

Key(d) == [pts |-> d.pts, cls |-> d.cls, nm |-> d.nm, dist |-> d.dist, fn |-> d.fn, typ |-> d.typ]
Writers == {"new", "clear", "ins", "insall", "insfrom", "rm", "rmm", "upd", "join", "rmfeat", "setfn", "shuffle",
            "compdist", "setx", "load"}
Makers == {"copy", "copyz", "ccopy", "selfeat", "insfeat", "rmfeatc", "samp"}
Target(ev) == IF ev.e \in Writers THEN ev.s ELSE IF ev.e \in Makers THEN ev.d ELSE 0

Parts(ev) == IF Has(ev, "parts") THEN ev.parts
             ELSE IF Has(ev, "pairs") THEN Flat([i \in DOMAIN ev.pairs |-> <<ev.pairs[i].train, ev.pairs[i].test>>])
             ELSE <<>>

----------------------------------------------------------------------------
(* C01: observable bookkeeping of one dataset *)
Bookkeeping(d, known) ==
    LET C(c, cond) == Clause("C01", c, cond) IN
    C("size agrees with the points", d.n = Len(d.pts)) \cup
    C("all points have the reported dimension",
      IF d.pts = <<>> THEN d.dim = 0 ELSE \A i \in DOMAIN d.pts : Len(d.pts[i].x) = d.dim) \cup
    C("emptiness flag agrees with the points", d.emp = (d.pts = <<>>)) \cup
    C("position index counts the points", d.ix = [i \in 1..Len(d.pts) |-> i - 1]) \cup
    C("label vector agrees with the points", d.lab = Ys(d.pts)) \cup
    C("feature names match the columns", NamesMatchColumns(d)) \cup
    (IF d.typ # "C" THEN {} ELSE
     C("every label listed exactly once", ClassesListedOnce(d)) \cup
     C("class distribution counts each class", CountsExact(d)) \cup
     C("class names run parallel to the classes",
       Len(d.nm) = Len(d.cls) /\ \A i \in DOMAIN d.cls :
          d.nm[i] = ToString(d.cls[i]) \/ <<d.cls[i], d.nm[i]>> \in known))

KnownNames(st) == UNION {{<<st[k].cls[i], st[k].nm[i]>> : i \in DOMAIN st[k].cls \cap DOMAIN st[k].nm} : k \in DOMAIN st}

Described(ev) ==
    LET known == KnownNames(S)
        load == IF ev.e = "load" THEN KnownNames(<<ev.st[ev.s]>>) ELSE {} IN
    UNION {Bookkeeping(ev.st[k], known \cup load) : k \in DOMAIN ev.st} \cup
    UNION {Bookkeeping(Parts(ev)[k], known) : k \in DOMAIN Parts(ev)}

----------------------------------------------------------------------------
(* C03: only the target of a call changes; copies compare equal *)
Independent(ev) ==
    UNION {Clause("C03", "a dataset that is not the target changed", k = Target(ev) \/ ev.st[k] = S[k]) : k \in DOMAIN ev.st} \cup
    (IF ev.e # "copy" THEN {} ELSE
       Clause("C03", "a copy compares equal to its source", ev.res /\ ev.res2) \cup
       Clause("C03", "a copy has the same content as its source", ev.st[ev.d] = S[ev.s]))

----------------------------------------------------------------------------
Pt(ev) == [id |-> ev.id, y |-> ev.y, x |-> ev.x]

OpClauses(ev) ==
    LET e == ev.e
        C2(c, cond) == Clause("C02", c, cond)
        C4(c, cond) == Clause("C04", c, cond)
        C5(c, cond) == Clause("C05", c, cond)
        C6(c, cond) == Clause("C06", c, cond)
        C7(c, cond) == Clause("C07", c, cond)
    IN
    CASE e = "ins" ->
           LET d == S[ev.s] t == ev.st[ev.s] IN
           C5("insertion appends exactly the point", t.pts = Ins(d, Pt(ev), ev.keep).pts) \cup
           C5("insertion reports acceptance", ev.res = InsOk(d, Pt(ev))) \cup
           C5("a rejected insertion changes nothing", InsOk(d, Pt(ev)) \/ t = d) \cup
           Clause("C04", "insertion keeps the feature names",
                  ~InsOk(d, Pt(ev)) \/ d.pts = <<>> \/ Len(d.fn) # Len(ev.x) \/ t.fn = d.fn)
      [] e = "insall" ->
           LET d == S[ev.s] t == ev.st[ev.s] w == Len(ev.xs) \div Len(ev.ids) IN
           C5("insertion appends exactly the points", t.pts = d.pts \o
              [i \in DOMAIN ev.ids |-> [id |-> IF ev.keep THEN ev.ids[i] ELSE Len(d.pts) + i, y |-> ev.ys[i], x |-> SubSeq(ev.xs, (i - 1) * w + 1, i * w)]]) \cup
           C5("insertion reports acceptance", ev.res)
      [] e = "insfrom" ->
           LET d == S[ev.s] src == S[ev.src] t == ev.st[ev.s]
               valid == ev.i >= 0 /\ ev.i < Len(src.pts)
               ok == valid /\ InsOk(d, src.pts[ev.i + 1]) IN
           C5("insertion from a dataset appends exactly that point",
              t.pts = IF ok THEN Ins(d, src.pts[ev.i + 1], ev.keep).pts ELSE d.pts) \cup
           C5("insertion from a dataset reports acceptance", ev.res = ok) \cup
           C5("a rejected insertion changes nothing", ok \/ t = d)
      [] e = "rm" ->
           LET d == S[ev.s] t == ev.st[ev.s] IN
           C2("removal deletes exactly the point with that id",
              \/ t.pts = Rm(d, ev.id).pts
              \/ RmFires(d, ev.id) /\ Survivors(d.pts, {ev.id}) # <<>> /\ t.pts = Survivors(d.pts, {ev.id})) \cup
           C2("removal reports success", ev.res = RmFires(d, ev.id)) \cup
           C2("an absent id changes nothing", RmFires(d, ev.id) \/ t = d) \cup
           C2("removal keeps the feature names", t.fn = d.fn)
      [] e = "rmm" ->
           LET d == S[ev.s] t == ev.st[ev.s] IN
           C2("removal deletes exactly the points with those ids", RmmOk(d.pts, t.pts, Rng(ev.ids))) \cup
           C2("absent ids change nothing", Rng(ev.ids) \cap Rng(Ids(d.pts)) # {} \/ Key(t) = Key(d)) \cup
           C2("removal keeps the feature names", t.fn = d.fn)
      [] e = "upd" ->
           LET d == S[ev.s] t == ev.st[ev.s] IN
           C5("relabelling changes one label", t.pts = Upd(d, ev.i, ev.y).pts) \cup
           C5("relabelling reports acceptance", ev.res = UpdFires(d, ev.i)) \cup
           C5("a rejected relabelling changes nothing", UpdFires(d, ev.i) \/ t = d)
      [] e = "join" ->
           LET d == S[ev.s] src == S[ev.src] t == ev.st[ev.s] IN
           C5("joining appends all points in order", t.pts = d.pts \o src.pts)
      [] e = "ccopy" ->
           C5("class copy yields exactly those classes in order",
              ev.st[ev.d].pts = OfClasses(S[ev.s].pts, Rng(ev.cs)))
      [] e = "byclass" ->
           LET d == S[ev.s] IN
           C5("splitting by class gives one part per class", Len(ev.parts) = Len(d.cls)) \cup
           C5("a class part holds exactly that class in order",
              \A i \in DOMAIN d.cls : i \in DOMAIN ev.parts => ev.parts[i].pts = ByClass(d, d.cls[i], ev.keep))
      [] e = "selfeat" ->
           LET d == S[ev.s] t == ev.st[ev.d]
               sorted == SortedInts(ev.feats)
               names == IF ev.size = -1 THEN Rng(ev.feats)
                        ELSE {sorted[k] : k \in 1..Min2(ev.size, Len(sorted))} IN
           C4("selection yields exactly the named columns", t.pts = SelFeat(d, names).pts)
      [] e = "insfeat" ->
           LET d == S[ev.s] t == ev.st[ev.d] w == SelFeat(d, Rng(ev.feats)) IN
           IF ev.feats = <<>> THEN C4("extracting nothing copies", t.pts = d.pts /\ t.fn = d.fn)
           ELSE
           C4("extraction yields exactly the named columns",
              t.pts = IF ev.keep THEN w.pts ELSE Renumber(w.pts)) \cup
           C4("extraction keeps the names on their columns", d.pts = <<>> \/ t.fn = w.fn)
      [] e = "rmfeat" ->
           LET d == S[ev.s] t == ev.st[ev.s] w == RmFeat(d, Rng(ev.feats)) IN
           C4("removal keeps exactly the other columns", t.pts = w.pts) \cup
           C4("removal keeps the names on their columns", t.fn = w.fn)
      [] e = "rmfeatc" ->
           LET d == S[ev.s] t == ev.st[ev.d]
               names == IF ev.fs = -1 THEN Rng(ev.feats) ELSE {ev.feats[k] : k \in 1..ev.fs}
               w == RmFeat(d, names) IN
           C4("removal keeps exactly the other columns", t.pts = w.pts) \cup
           C4("removal keeps the names on their columns", t.fn = w.fn)
      [] e = "shuffle" ->
           LET d == S[ev.s] t == ev.st[ev.s] IN
           C7("shuffling permutes the points", IsShuffle(d.pts, t.pts)) \cup
           C7("shuffling resets the position index", t.ix = [i \in 1..Len(d.pts) |-> i - 1]) \cup
           C7("shuffling with a seed is reproducible", ev.seed = 0 \/ ev.same)
      [] e = "samp" ->
           LET d == S[ev.s] t == ev.st[ev.d] IN
           C7("samples are points of the source", Rng(Contents(t.pts)) \subseteq Rng(Contents(d.pts))) \cup
           C7("each class gets its proportional share",
              \A c \in Rng(Ys(d.pts)) : CountClass(t.pts, c) = Share(d, c, ev.size)) \cup
           C7("no point is drawn twice without replacement",
              ev.wr \/ SubBag(Contents(t.pts), Contents(d.pts))) \cup
           C7("sampling with a seed is reproducible", ev.same)
      [] e = "cover" ->
           C7("any member of a class can be drawn", Rng(ev.seen) = {Tag(S[ev.s].pts[i]) : i \in DOMAIN S[ev.s].pts})
      [] e = "covershuf" ->
           C7("any point can be shuffled to the front", Rng(ev.seen) = {Tag(S[ev.s].pts[i]) : i \in DOMAIN S[ev.s].pts})
      [] e = "split" ->
           LET d == S[ev.s] IN
           C7("splitting with a seed is reproducible", ev.same) \cup
           C6("one part per fold", Len(ev.parts) = ev.k) \cup
           C6("every point is in exactly one fold", IsPartition(d, ev.parts)) \cup
           C6("per-class counts of folds differ by at most one",
              ~ev.strat \/ d.typ # "C" \/ Stratified(d, ev.parts)) \cup
           C6("fold sizes differ by at most one",
              (ev.strat /\ d.typ = "C") \/ EvenSizes(ev.parts)) \cup
           C6("kept ids stay with their points", ~ev.keep \/ KeepsIds(d, AllPoints(ev.parts))) \cup
           C6("splitting does not change the source", ev.st[ev.s] = d)
      [] e \in {"kfs", "kkfs"} ->
           LET d == S[ev.s]
               q == IF e = "kfs" THEN 1 ELSE ev.q
               chunk(r) == SubSeq(ev.pairs, (r - 1) * ev.k + 1, r * ev.k)
               tests(r) == [i \in 1..ev.k |-> chunk(r)[i].test] IN
           C7("splitting with a seed is reproducible", ev.same) \cup
           C6("folds times executions pairs", Len(ev.pairs) = ev.k * q) \cup
           C6("train and test are disjoint and complete", \A i \in DOMAIN ev.pairs : PairOk(d, ev.pairs[i])) \cup
           C6("each point is tested once per execution",
              \A r \in 1..q : r * ev.k > Len(ev.pairs) \/ TestedOnce(d, chunk(r))) \cup
           C6("stratified test folds",
              \A r \in 1..q : r * ev.k > Len(ev.pairs) \/ ~ev.strat \/ d.typ # "C" \/ Stratified(d, tests(r))) \cup
           C6("even test folds",
              \A r \in 1..q : r * ev.k > Len(ev.pairs) \/ (ev.strat /\ d.typ = "C") \/ EvenSizes(tests(r))) \cup
           C6("kept ids stay with their points",
              ~ev.keep \/ \A i \in DOMAIN ev.pairs : KeepsIds(d, ev.pairs[i].train.pts \o ev.pairs[i].test.pts)) \cup
           C6("pairs are numbered",
              \A i \in DOMAIN ev.pairs : ev.pairs[i].fold = ((i - 1) % ev.k) + 1
                                         /\ (e = "kkfs" => ev.pairs[i].exec = ((i - 1) \div ev.k) + 1)) \cup
           C6("splitting does not change the source", ev.st[ev.s] = d)
      [] e = "ptt" ->
           LET d == S[ev.s] IN
           C7("splitting with a seed is reproducible", ev.same) \cup
           C6("train and test are disjoint and complete", PairOk(d, ev.pairs[1])) \cup
           C6("kept ids stay with their points",
              ~ev.keep \/ KeepsIds(d, ev.pairs[1].train.pts \o ev.pairs[1].test.pts)) \cup
           C6("the test side is one fold",
              LET t == ev.pairs[1].test.pts n == Len(d.pts) IN
              IF ev.strat /\ d.typ = "C"
              THEN \A c \in Rng(Ys(d.pts)) :
                     LET m == CountClass(d.pts, c) IN CountClass(t, c) \in {m \div ev.k, (m + ev.k - 1) \div ev.k}
              ELSE Len(t) \in {n \div ev.k, (n + ev.k - 1) \div ev.k}) \cup
           C6("splitting does not change the source", ev.st[ev.s] = d)
      [] e = "write" -> Clause("C08", "writing changes nothing", ev.st = S)
      [] e = "load" ->
           LET t == ev.st[ev.s]
               C8(c, cond) == Clause("C08", c, cond) IN
           IF ev.file \notin DOMAIN F THEN C8("a missing file is reported", ~ev.res)
           ELSE LET f == F[ev.file] IN
           C8("loading reports success", ev.res) \cup
           C8("loading yields the points of the file in order", Contents(t.pts) = FileContents(f)) \cup
           C8("ids are assigned in file order", Ids(t.pts) = Iota(Len(t.pts))) \cup
           C8("feature names are restored", t.fn = f.fn) \cup
           C8("size and dimension describe the file", t.n = Len(f.lines) /\ t.dim = Len(f.fn) /\ ~t.emp) \cup
           (IF t.typ # "C" THEN C8("a classification file stays one", Has(f, "typ") /\ f.typ = "R") ELSE
            C8("a regression file stays one", ~Has(f, "typ") \/ f.typ = "C") \cup
            C8("the same set of classes", Distinct(t.cls) /\ Rng(t.cls) = Rng(Ys(t.pts))) \cup
            C8("the same class counts", CountsExact(t)) \cup
            (IF ~Has(f, "names") THEN {} ELSE
             C8("class names label their classes",
                \A i \in DOMAIN t.pts \cap DOMAIN f.names :
                   LET p == PosOf(t.cls, t.pts[i].y) IN p # 0 /\ p <= Len(t.nm) /\ t.nm[p] = f.names[i])))
      [] OTHER -> {}

Failed(ev) ==
    IF ev.e = "crash" THEN CrashBad(ev)
    ELSE IF Has(ev, "exc") THEN ExcBad(ev)
    ELSE IF Has(ev, "skip") THEN {}     \* outside the operation's precondition: not called
    ELSE OpClauses(ev) \cup Independent(ev) \cup (IF Prop = "C01" THEN Described(ev) ELSE {})

NoFiles == [x \in {} |-> x]
Put(f, k, v) == (k :> v) @@ f
NextFiles(ev) ==
    IF ev.e = "write" THEN Put(F, ev.name \o "." \o ev.ext, Put(FileOf(S[ev.s], ev.ext), "typ", S[ev.s].typ))
    ELSE IF ev.e = "rawfile" THEN Put(F, ev.file, ev.exp)
    ELSE F
TraceInit == l = 1 /\ S = Start(0) /\ F = NoFiles /\ TLCSet(1, 0)
TraceNext ==
    /\ l <= Len(Trace)
    /\ LET ev == Trace[l] IN
       IF ev.e = "begin" THEN S' = Start(0) /\ F' = NoFiles
       ELSE /\ Judge(ev, Failed(ev))
            /\ S' = IF Has(ev, "st") THEN ev.st ELSE S
            /\ F' = NextFiles(ev)
    /\ l' = l + 1
TraceSpec == TraceInit /\ [][TraceNext]_<<l, S, F>>
TraceAccepted == Accepted
=============================================================================
