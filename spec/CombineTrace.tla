---------------------------- MODULE CombineTrace ----------------------------
(* Judges what recording learners saw and what the combinations answered.    *)
EXTENDS Combine, TraceCommon
VARIABLES l, type, weights
tvars == <<l, type, weights>>

SetOf(s) == {s[i] : i \in DOMAIN s}
Distinct(s) == Cardinality(SetOf(s)) = Len(s)
K(ev) == Len(ClassList(ev.ys))
Classes(ev) == ClassList(ev.ys)
\* a training set seen by a recording learner: positions labelled +1, -1, and anything else
SeesExactly(tr, want) ==
    /\ tr.other = 0 /\ Distinct(tr.pos) /\ Distinct(tr.neg)
    /\ SetOf(tr.pos) = want.pos /\ SetOf(tr.neg) = want.neg
OneToOne(trs, wants) ==      \* every wanted set is seen by exactly one training and nothing else is trained
    /\ Len(trs) = Cardinality(DOMAIN wants)
    /\ \A k \in DOMAIN wants : \E t \in DOMAIN trs : SeesExactly(trs[t], wants[k])
    /\ \A t \in DOMAIN trs : \E k \in DOMAIN wants : SeesExactly(trs[t], wants[k])

OvoBad(ev) ==
    Clause("C14", "a pair of classes does not train its own learner on the points of the two classes",
           OneToOne(ev.trained, [p \in Pairs(K(ev)) |-> OvoSet(ev.ys, p)])) \cup
    Clause("C14", "the over-sampling was not given the points of the pair", ev.sampled => ev.sampler) \cup
    Clause("C14", "the prediction is not a class with the most pairwise votes",
           /\ Len(ev.pred) = Len(ev.dec)
           /\ \A q \in DOMAIN ev.pred : \E c \in OvoWinners(ev.dec[q], K(ev)) : ev.pred[q] = Classes(ev)[c]) \cup
    Clause("C14", "the user's dataset was changed", ev.kept) \cup
    Clause("C24", "training or predicting changed the caller's data", ev.kept) \cup
    Clause("C24", "repeating a prediction gave another result", ev.again = ev.pred)
OvaBad(ev) ==
    Clause("C14", "a class does not train its own learner on all points, +1 for the class and -1 for the rest",
           OneToOne(ev.trained, [c \in 1..K(ev) |-> OvaSet(ev.ys, c)])) \cup
    Clause("C14", "the over-sampling was not given the relabelled points", (Has(ev, "sampled") /\ ev.sampled) => ev.sampler) \cup
    Clause("C14", "the prediction is not a class whose learner has the highest score",
           /\ Len(ev.pred) = Len(ev.score)
           /\ \A q \in DOMAIN ev.pred : \E c \in ArgMax(ev.score[q]) : ev.pred[q] = Classes(ev)[c]) \cup
    Clause("C14", "the user's dataset was changed", ev.kept) \cup
    Clause("C24", "training or predicting changed the caller's data", ev.kept) \cup
    Clause("C24", "repeating a prediction gave another result", ev.again = ev.pred)

----------------------------------------------------------------------------
\* table[m][q]: label predicted by member m for query q
TableOf(ev, q) == [m \in DOMAIN ev.table |-> ev.table[m][q]]
AsClass(ev, p) == [m \in DOMAIN p |-> CHOOSE c \in 1..K(ev) : Classes(ev)[c] = p[m]]
MembersBad(ev, all) ==
    Clause("C17", "a member was not trained exactly once", ev.trainings = [m \in 1..all |-> 1]) \cup
    Clause("C17", "predicting changed a member", ev.membersKept)
WholeBad(ev) ==
    Clause("C17", "a member was not trained on the data of the ensemble",
           \A m \in DOMAIN ev.saw : Distinct(ev.saw[m]) /\ SetOf(ev.saw[m]) = DOMAIN ev.ys /\ ev.sawRight)
\* the event of a voting ensemble carries the state it was created with
VtrainBad(ev) == MembersBad(ev, Len(ev.table)) \cup WholeBad(ev) \cup
    Clause("C17", "the ensemble does not have as many members as it was given", ev.size = Len(ev.table)) \cup
    Clause("C24", "training changed the caller's data", ev.kept)
VevalBad(ev) ==
    LET n == Len(ev.table)
        v == IF type = "soft" THEN weights ELSE Ones(n) IN
    Clause("C17", "the prediction is not a class with a maximal total vote",
           /\ Len(ev.pred) = Len(ev.table[1])
           /\ \A q \in DOMAIN ev.pred : \E c \in VoteWinners(AsClass(ev, TableOf(ev, q)), v, K(ev)) : ev.pred[q] = Classes(ev)[c]) \cup
    Clause("C17", "predicting changed a member", ev.membersKept) \cup
    Clause("C24", "predicting changed the caller's data", ev.kept) \cup
    Clause("C24", "repeating a prediction gave another result", ev.again = ev.pred)
\* bagging: members see a sample of the data
Abs(a) == IF a < 0 THEN -a ELSE a
BagBad(ev) ==
    LET n == Len(ev.ys)
        s == n \div Len(ev.table) IN
    MembersBad(ev, Len(ev.table)) \cup
    Clause("C17", "a member was trained on points that are not of the ensemble",
           ev.sawRight /\ \A m \in DOMAIN ev.saw : SetOf(ev.saw[m]) \subseteq DOMAIN ev.ys) \cup
    Clause("C17", "a member was not trained on a sample with the classes in proportion",
           \A m \in DOMAIN ev.saw : \A c \in 1..K(ev) :
             LET have == Cardinality({i \in DOMAIN ev.saw[m] : ev.saw[m][i] \in Positions(ev.ys, Classes(ev)[c])}) IN
             /\ have >= 1
             /\ Abs(have * n - Cardinality(Positions(ev.ys, Classes(ev)[c])) * s) <= n) \cup
    VevalBad(ev)
CommitteeBad(ev) == VevalBad(ev) \cup
    Clause("C17", "the committee does not have as many members as it was given", ev.size = Len(ev.table)) \cup
    Clause("C17", "a member was not trained on the data of the ensemble",
           \A m \in DOMAIN ev.saw : Distinct(ev.saw[m]) /\ SetOf(ev.saw[m]) = DOMAIN ev.ys /\ ev.sawRight)

\* boosting: own[m][i] is the label member m predicts for training point i
Missed(ev, m) == {i \in DOMAIN ev.ys : ev.own[m][i] # ev.ys[i]}
BoostBad(ev) ==
    LET n == Len(ev.table)
        miss == [m \in 1..n |-> [s |-> Missed(ev, m), w |-> ev.ys]]
        perfect == \A m \in 1..n : Missed(ev, m) = {}
        regular == \A m \in 1..n : Missed(ev, m) # {} /\ Missed(ev, m) # DOMAIN ev.ys
        odds == AllOdds(miss, K(ev)) IN
    MembersBad(ev, n) \cup WholeBad(ev) \cup
    (IF perfect THEN VevalBad(ev)
     ELSE IF regular /\ Small(odds) THEN
       Clause("C17", "the prediction is not the class with the largest sum of boosting weights",
              /\ Len(ev.pred) = Len(ev.table[1])
              /\ \A q \in DOMAIN ev.pred : \E c \in BoostWinners(AsClass(ev, TableOf(ev, q)), odds, K(ev)) : ev.pred[q] = Classes(ev)[c])
     ELSE {}) \cup
    Clause("C24", "training or predicting changed the caller's data", ev.kept) \cup
    Clause("C24", "repeating a prediction gave another result", ev.again = ev.pred)

Failed(ev) ==
    IF ev.e = "crash" THEN CrashBad(ev) ELSE IF Has(ev, "exc") THEN ExcBad(ev) ELSE
    CASE ev.e = "ovo" -> OvoBad(ev)
      [] ev.e \in {"ova", "ovap"} -> OvaBad(ev)
      [] ev.e = "vnew" -> VtrainBad(ev)
      [] ev.e = "veval" -> VevalBad(ev)
      [] ev.e = "bag" -> BagBad(ev)
      [] ev.e = "comm" -> CommitteeBad(ev)
      [] ev.e = "boost" -> BoostBad(ev)
      [] OTHER -> {}

TraceInit == l = 1 /\ type = "hard" /\ weights = <<>> /\ TLCSet(1, 0)
TraceNext ==
    /\ l <= Len(Trace)
    /\ LET ev == Trace[l] IN
       /\ IF ev.e = "begin" THEN TRUE ELSE Judge(ev, Failed(ev))
       /\ type' = IF ev.e \in {"begin", "vnew", "vtype"} THEN (IF ev.e = "begin" THEN "hard" ELSE ev.t) ELSE type
       /\ weights' = IF ev.e = "begin" THEN <<>> ELSE IF ev.e = "vweights" THEN ev.w ELSE weights
    /\ l' = l + 1
TraceSpec == TraceInit /\ [][TraceNext]_tvars
TraceAccepted == Accepted
=============================================================================
