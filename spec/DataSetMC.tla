----------------------------- MODULE DataSetMC -----------------------------
(* Exhaustive model of operation histories over two datasets. Checks that    *)
(* the incremental bookkeeping of DataSet.tla stays consistent and that the  *)
(* per-operation guarantees hold in every reachable state; prints one        *)
(* operation history per transition for replay against the real code.        *)
EXTENDS DataSet, TLC, Json

CONSTANTS Ops,        \* names of the operations explored
          Dim,        \* features per point of the initial datasets
          MaxPts,     \* size bound of a dataset
          Depth,      \* length bound of a history
          Labels,     \* labels used by insertion and relabelling
          From,       \* which of the initial contents below
          Emit        \* print histories

VARIABLES S, F, hist, last     \* F: the files written, by extension
vars == <<S, F, hist, last>>
Exts == {"data", "csv"}

X(t) == [i \in 1..Dim |-> 10 * i + t]
P(id, y, t) == [id |-> id, y |-> y, x |-> X(t)]
(* initial contents: the driver builds them with the same insertions *)
Inits == <<
  << <<>>, <<P(1, 1, 8)>> >>,
  << <<P(1, 1, 1), P(2, -1, 2), P(3, 1, 3)>>, <<P(1, 2, 8), P(2, -1, 9)>> >>,
  << <<P(3, -1, 1), P(1, 2, 2)>>, <<>> >>
>>

DS == 1..2
Init == /\ \E i \in {Inits[k] : k \in From} :
             /\ S = [k \in DS |-> InsAll(Empty, i[k], TRUE)]
             /\ hist = <<[e |-> "init", sets |-> i]>>
        /\ last = [e |-> "init"]
        /\ F = [x \in Exts |-> FileOf(Empty, x)]

Tags == {Tag(S[k].pts[i]) : k \in DS, i \in 1..MaxPts} \* (only used on defined positions)
NextTag == 20 + Len(hist)
Feats == 1..Dim
SeqsUpTo(n, A) == UNION {[1..m -> A] : m \in 1..n}

Calls ==
  UNION {
    {[e |-> "ins", s |-> s, via |-> 0, y |-> y, id |-> 7, keep |-> k, x |-> X(NextTag)] : s \in DS, y \in Labels, k \in BOOLEAN},
    {[e |-> "ins", s |-> s, via |-> 1, y |-> 1, id |-> 2, keep |-> TRUE, x |-> <<NextTag>>] : s \in DS},
    {[e |-> "insfrom", s |-> s, src |-> r, i |-> i, keep |-> k] : s \in DS, r \in DS, i \in -1..2, k \in BOOLEAN},
    {[e |-> "rm", s |-> s, id |-> i] : s \in DS, i \in 0..4},
    {[e |-> "rmm", s |-> s, ids |-> q] : s \in DS, q \in {<<1>>, <<2, 1>>, <<3, 1, 9>>, <<9>>, <<1, 2, 3, 7>>, <<2, 2>>}},
    {[e |-> "upd", s |-> s, i |-> i, y |-> y] : s \in DS, i \in 0..3, y \in Labels},
    {[e |-> "join", s |-> s, src |-> 3 - s] : s \in DS},
    {[e |-> "ccopy", d |-> 3 - s, s |-> s, cs |-> q] : s \in DS, q \in {<<1>>, <<-1, 1>>, <<2, -1>>}},
    {[e |-> "copy", d |-> 3 - s, s |-> s, how |-> h] : s \in DS, h \in 0..3},
    {[e |-> "copyz", d |-> 3 - s, s |-> s] : s \in DS},
    {[e |-> "clear", s |-> s] : s \in DS},
    {[e |-> "byclass", s |-> s, keep |-> k] : s \in DS, k \in BOOLEAN},
    {[e |-> "selfeat", d |-> 3 - s, s |-> s, size |-> -1, feats |-> q] : s \in DS, q \in SeqsUpTo(2, Feats)},
    {[e |-> "insfeat", d |-> 3 - s, s |-> s, keep |-> k, feats |-> q] : s \in DS, k \in BOOLEAN, q \in SeqsUpTo(2, Feats)},
    {[e |-> "rmfeat", s |-> s, feats |-> q] : s \in DS, q \in SeqsUpTo(2, Feats \cup {9})},
    {[e |-> "rmfeatc", d |-> 3 - s, s |-> s, fs |-> f, feats |-> q] : s \in DS, f \in {-1, 1}, q \in SeqsUpTo(2, Feats \cup {9})},
    {[e |-> "shuffle", s |-> s, seed |-> z] : s \in DS, z \in {3, 5}},
    {[e |-> "samp", d |-> 3 - s, s |-> s, size |-> z, wr |-> w, seed |-> 11] : s \in DS, z \in 1..MaxPts, w \in BOOLEAN},
    {[e |-> "split", s |-> s, k |-> k, strat |-> b, keep |-> TRUE, seed |-> 4] : s \in DS, k \in 2..3, b \in BOOLEAN},
    {[e |-> "kfs", s |-> s, k |-> k, q |-> 1, strat |-> b, keep |-> kk, seed |-> 4] : s \in DS, k \in 2..3, b \in BOOLEAN, kk \in BOOLEAN},
    {[e |-> "kkfs", s |-> s, k |-> k, q |-> 2, strat |-> b, keep |-> TRUE, seed |-> 9] : s \in DS, k \in 2..3, b \in BOOLEAN},
    {[e |-> "ptt", s |-> s, k |-> k, strat |-> b, keep |-> TRUE, seed |-> 6] : s \in DS, k \in 2..3, b \in BOOLEAN},
    {[e |-> "compdist", s |-> s] : s \in DS},
    {[e |-> "write", s |-> s, name |-> "f", ext |-> x] : s \in DS, x \in Exts},
    {[e |-> "load", s |-> s, file |-> "f." \o x, how |-> h] : s \in DS, x \in Exts, h \in 0..3},
    {[e |-> "setx", s |-> s, i |-> i, k |-> Dim - 1, v |-> 4000 + Len(hist)] : s \in DS, i \in 0..1}
  }

(* preconditions documented by the library (dimension, known features...) *)
DimOf(d) == IF d.pts = <<>> THEN 0 ELSE Len(d.pts[1].x)
FileExt(c) == CHOOSE x \in Exts : c.file = "f." \o x
Pre(c) ==
  CASE c.e = "join" -> S[c.src].pts = <<>> \/ S[c.s].pts = <<>> \/ DimOf(S[c.s]) = DimOf(S[c.src])
    [] c.e = "selfeat" -> Distinct(c.feats) /\ Rng(c.feats) \subseteq Rng(S[c.s].fn) /\ S[c.s].pts # <<>>
    [] c.e = "insfeat" -> Distinct(c.feats) /\ Rng(c.feats) \subseteq Rng(S[c.s].fn) /\ S[c.s].pts # <<>>
    [] c.e = "rmfeat" -> S[c.s].pts # <<>> /\ ~(Rng(S[c.s].fn) \subseteq Rng(c.feats))
    [] c.e = "rmfeatc" -> S[c.s].pts # <<>> /\ ~(Rng(S[c.s].fn) \subseteq Rng(c.feats)) /\ c.fs <= Len(c.feats)
    [] c.e = "samp" -> c.size <= Len(S[c.s].pts)
    [] c.e \in {"split", "kfs", "kkfs", "ptt"} -> Len(S[c.s].pts) >= c.k
    [] c.e = "setx" -> c.i < Len(S[c.s].pts) /\ c.k < DimOf(S[c.s]) /\ c.k > 0
    [] c.e = "write" -> S[c.s].pts # <<>>
    [] c.e = "load" -> F[FileExt(c)].lines # <<>>
    [] c.e = "insfrom" -> S[c.src].pts # <<>> \/ c.i < 1
    [] OTHER -> TRUE

Put(k, d) == [S EXCEPT ![k] = d]
Perms(s) == {[i \in DOMAIN s |-> s[f[i]]] : f \in {g \in [DOMAIN s -> DOMAIN s] : Rng(g) = DOMAIN s}}
Draws(d, size, wr) ==
  LET n == SumSeq([i \in DOMAIN d.cls |-> Share(d, d.cls[i], size)])
      all == [1..n -> Rng(d.pts)]
  IN {q \in all : IsSample(d, q, size, wr)}

(* allowed post-states of one call *)
Post(c) ==
  CASE c.e = "ins" -> {Put(c.s, Ins(S[c.s], [id |-> c.id, y |-> c.y, x |-> c.x], c.keep))}
    [] c.e = "insfrom" ->
         IF c.i >= 0 /\ c.i < Len(S[c.src].pts)
         THEN {Put(c.s, Ins(S[c.s], S[c.src].pts[c.i + 1], c.keep))} ELSE {S}
    [] c.e = "rm" -> {Put(c.s, Rm(S[c.s], c.id))}
    [] c.e = "rmm" -> {Put(c.s, Rmm(S[c.s], Rng(c.ids)))}
    [] c.e = "upd" -> {Put(c.s, Upd(S[c.s], c.i, c.y))}
    [] c.e = "join" -> {Put(c.s, Join(S[c.s], S[c.src]))}
    [] c.e = "ccopy" -> {Put(c.d, ClassesCopy(S[c.s], c.cs))}
    [] c.e = "copy" -> {Put(c.d, S[c.s])}
    [] c.e = "copyz" -> {Put(c.d, [Empty EXCEPT !.fn = S[c.s].fn, !.typ = S[c.s].typ])}
    [] c.e = "clear" -> {Put(c.s, [Empty EXCEPT !.typ = S[c.s].typ])}
    [] c.e = "selfeat" -> {Put(c.d, InsAll(Empty, SelFeat(S[c.s], Rng(c.feats)).pts, TRUE))}
    [] c.e = "insfeat" -> {Put(c.d, [InsAll(Empty, SelFeat(S[c.s], Rng(c.feats)).pts, c.keep)
                                      EXCEPT !.fn = SelFeat(S[c.s], Rng(c.feats)).fn])}
    [] c.e = "rmfeat" -> {Put(c.s, RmFeat(S[c.s], Rng(c.feats)))}
    [] c.e = "rmfeatc" -> {Put(c.d, RmFeat(S[c.s], IF c.fs = -1 THEN Rng(c.feats) ELSE {c.feats[1]}))}
    [] c.e = "shuffle" -> {Put(c.s, [S[c.s] EXCEPT !.pts = p]) : p \in Perms(S[c.s].pts)}
    [] c.e = "samp" -> {Put(c.d, InsAll(Empty, q, FALSE)) : q \in Draws(S[c.s], c.size, c.wr)}
    [] c.e = "setx" -> {Put(c.s, [S[c.s] EXCEPT !.pts[c.i + 1].x[c.k + 1] = c.v])}
    [] c.e = "load" -> {Put(c.s, Loaded(F[FileExt(c)], "C"))}
    [] OTHER -> {S}

Next == \E c \in {d \in Calls : d.e \in Ops} :
          /\ Len(hist) <= Depth
          /\ Pre(c)
          /\ S' \in Post(c)
          /\ F' = IF c.e = "write" THEN [F EXCEPT ![c.ext] = FileOf(S[c.s], c.ext)] ELSE F
          /\ hist' = Append(hist, c)
          /\ last' = c
Spec == Init /\ [][Next]_vars

Bound == \A k \in DS : Len(S[k].pts) <= MaxPts

(* properties of the specification *)
AllWellFormed == \A k \in DS : WellFormed(S[k])
NeverEmptied ==
  [][last'.e \in {"rm", "rmm"} =>
       /\ S[last'.s].pts # <<>> => S'[last'.s].pts # <<>>
       /\ \A i, j \in DOMAIN S'[last'.s].pts : i < j =>
            \E a, b \in DOMAIN S[last'.s].pts : a < b /\ S[last'.s].pts[a] = S'[last'.s].pts[i]
                                                      /\ S[last'.s].pts[b] = S'[last'.s].pts[j]]_vars
OthersUntouched ==
  [][\A k \in DS : (last'.e \in {"ins", "insfrom", "rm", "rmm", "upd", "join", "rmfeat", "shuffle", "setx", "clear"} /\ k # last'.s)
                    => S'[k] = S[k]]_vars
SamplesAreSubsets ==
  [][last'.e = "samp" => IsSample(S[last'.s], S'[last'.d].pts, last'.size, last'.wr)]_vars

LoadingReplaces ==
  [][last'.e = "load" =>
       LET t == S'[last'.s] f == F[FileExt(last')] IN
       /\ Contents(t.pts) = FileContents(f)
       /\ Ids(t.pts) = Iota(Len(t.pts))]_vars

Terse == <<S, F>>
EmitHist == Emit => PrintT("@H" \o ToJson(hist'))
=============================================================================
