------------------------------ MODULE CombineMC ------------------------------
(* The combination algorithms as loops over learners, against the            *)
(* declarative winners of Combine. Kind selects the algorithm:               *)
(*   ovo   votes of the K(K-1) ordered pairs, in any order                   *)
(*   vote  a voting ensemble: histories of configuring and evaluating it     *)
(*   boost rounds of boosting over N points and M members                    *)
EXTENDS Combine, TLC, Json
CONSTANTS Kind, K, M, N, MaxW, Len0, Variant, Emit
VARIABLES table, todo, totals, type, weights, hist, w, odds
vars == <<table, todo, totals, type, weights, hist, w, odds>>

Idle == /\ todo = {} /\ totals = <<>> /\ type = "none" /\ weights = <<>> /\ hist = <<>> /\ w = <<>> /\ odds = <<>>
----------------------------------------------------------------------------
OvoInit == /\ table \in [Pairs(K) -> {-1, 1}]
           /\ todo = Pairs(K) /\ totals = [c \in 1..K |-> 0]
           /\ type = "none" /\ weights = <<>> /\ hist = <<>> /\ w = <<>> /\ odds = <<>>
OvoStep == \E p \in todo :
    /\ todo' = todo \ {p}
    /\ totals' = IF table[p] = 1 THEN [totals EXCEPT ![p[1]] = @ + 1]
                 ELSE IF Variant = "winsOnly" /\ p[1] < p[2] THEN totals
                 ELSE [totals EXCEPT ![p[2]] = @ + 1]
    /\ UNCHANGED <<table, type, weights, hist, w, odds>>
Dec(t) == [i \in 1..K |-> [j \in 1..K |-> IF i = j THEN 0 ELSE t[<<i, j>>]]]
OvoRight == (Kind = "ovo" /\ todo = {}) =>
    /\ ArgMax(totals) = OvoWinners(Dec(table), K)
    /\ Sum(totals) = K * (K - 1)
\* the winner has at least the average number of votes
OvoStrong == (Kind = "ovo" /\ todo = {}) => \A c \in ArgMax(totals) : totals[c] >= K - 1

----------------------------------------------------------------------------
\* table[m] is the class member m predicts for the only query
VoteInit == /\ table \in [1..M -> 1..K] /\ type = "hard" /\ weights = Ones(M)
            /\ todo = {} /\ totals = <<>> /\ hist = <<>> /\ w = Ones(M) /\ odds = <<>>
\* w: the weights as last set by the user
SetType(t) == /\ type # t /\ type' = t /\ hist' = Append(hist, [e |-> "vtype", t |-> t])
              /\ UNCHANGED <<table, todo, totals, weights, w, odds>>
SetWeights(v) == /\ weights' = v /\ w' = v /\ hist' = Append(hist, [e |-> "vweights", w |-> v])
                 /\ UNCHANGED <<table, todo, totals, type, odds>>
Evaluate == /\ totals' = VoteTotals(table, IF type = "soft" THEN weights ELSE Ones(M), K)
            /\ weights' = IF Variant = "hardOverwrites" /\ type = "hard" THEN Ones(M) ELSE weights
            /\ hist' = Append(hist, [e |-> "veval"])
            /\ UNCHANGED <<table, todo, type, w, odds>>
VoteStep == Len(hist) < Len0 /\ (\/ \E t \in {"soft", "hard"} : SetType(t)
                                 \/ \E v \in [1..M -> 0..MaxW] : v # weights /\ SetWeights(v)
                                 \/ Evaluate)
VoteRight == (Kind = "vote" /\ hist # <<>> /\ hist[Len(hist)].e = "veval") =>
    ArgMax(totals) = VoteWinners(table, IF type = "soft" THEN w ELSE Ones(M), K)
\* scaling all weights or agreeing members do not change the winner
VoteLaws == (Kind = "vote" /\ hist = <<>>) =>
    /\ \A v \in [1..M -> 1..2] : VoteWinners(table, v, K) = VoteWinners(table, [m \in 1..M |-> 3 * v[m]], K)
    /\ \A c \in 1..K : (\A m \in 1..M : table[m] = c) => VoteWinners(table, Ones(M), K) = {c}

----------------------------------------------------------------------------
\* todo: the points the last member missed
BoostInit == /\ w = [i \in 1..N |-> 1] /\ odds = <<>> /\ hist = <<>>
             /\ table = <<>> /\ todo = {} /\ totals = <<>> /\ type = "none" /\ weights = <<>>
BoostStep == /\ Len(odds) < M
             /\ \E S \in (SUBSET (1..N)) \ {{}, 1..N} :
                /\ odds' = Append(odds, Odds(w, S, K))
                /\ w' = IF Variant = "noUpdate" THEN w ELSE Reweigh(w, S, K)
                /\ todo' = S /\ hist' = Append(hist, S)
             /\ UNCHANGED <<table, totals, type, weights>>
\* after a round the last member does no better than guessing on the new weights
Guessing == (Kind = "boost" /\ odds # <<>>) => HitWeight(w, todo) * (K - 1) = MissWeight(w, todo)
Positive == Kind = "boost" => \A i \in DOMAIN w : w[i] > 0
\* the rounds are the recursive definition used to judge the code
Recursive == (Kind = "boost" /\ odds # <<>>) =>
    AllOdds([m \in DOMAIN hist |-> [s |-> hist[m], w |-> w]], K) = odds

----------------------------------------------------------------------------
Init == CASE Kind = "ovo" -> OvoInit [] Kind = "vote" -> VoteInit [] Kind = "boost" -> BoostInit
Next == \/ Kind = "ovo" /\ OvoStep
        \/ Kind = "vote" /\ VoteStep
        \/ Kind = "boost" /\ BoostStep
Spec == Init /\ [][Next]_vars

SeqOfSet(S) == [i \in 1..N |-> IF i \in S THEN 1 ELSE 0]
Printed == Emit =>
    CASE Kind = "ovo" -> (todo = Pairs(K)) => PrintT("@H" \o ToJson([dec |-> Dec(table)]))
      [] Kind = "vote" -> (hist # <<>> /\ hist[Len(hist)].e = "veval" /\ Len(hist) = Len0) =>
                          PrintT("@H" \o ToJson([table |-> table, hist |-> hist]))
      [] Kind = "boost" -> (Len(odds) = M) => PrintT("@H" \o ToJson([miss |-> [m \in DOMAIN hist |-> SeqOfSet(hist[m])]]))
OnlyFirst == ~(Kind = "ovo" /\ Emit) \/ TLCGet("level") <= 1
=============================================================================
