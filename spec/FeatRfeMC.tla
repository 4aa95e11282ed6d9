----------------------------- MODULE FeatRfeMC ------------------------------
(* Recursive elimination: a learner is trained on the remaining features and *)
(* gives each a weight; the Jump features of least weight are dropped, but   *)
(* never more than requested. A failed training ends the run with the last   *)
(* set that was learned, growth of the error beyond the limit with the       *)
(* present set.                                                              *)
EXTENDS Integers, FiniteSets, Sequences, TLC, Json
CONSTANTS D, MaxWeight, Limit, Variant, Emit
VARIABLES final, jump, kept, learned, weight, past, error, status, hist
vars == <<final, jump, kept, learned, weight, past, error, status, hist>>
All == 1..D
None == [f \in All |-> 0]
Init == /\ final \in 1..(D - 1) /\ jump \in 1..2 /\ kept = All /\ learned = {} /\ weight = None
        /\ past = <<>> /\ error = <<>> /\ status = "train" /\ hist = <<>>
Train(w, e) ==
    /\ status = "train"
    /\ weight' = w /\ learned' = kept /\ error' = Append(error, e)
    /\ status' = IF Cardinality(kept) <= final \/ (Len(error) > 0 /\ e - error[1] > Limit) THEN "done" ELSE "drop"
    /\ hist' = Append(hist, [w |-> w, ok |-> 1, e |-> e])
    /\ UNCHANGED <<kept, past>>
Fail == /\ status = "train" /\ status' = "failed"
        /\ hist' = Append(hist, [w |-> None, ok |-> 0, e |-> 0])
        /\ learned' = IF Variant = "everything" THEN All ELSE IF learned = {} THEN All ELSE learned
        /\ UNCHANGED <<kept, weight, past, error>>
Step == LET n == Cardinality(kept) - final IN IF jump < n \/ Variant = "overshoot" THEN jump ELSE n
Least(S) == \A f \in S, g \in kept \ S : weight[f] <= weight[g]
Drop(S) == /\ status = "drop" /\ kept' = kept \ S
           /\ past' = Append(past, [gone |-> S, left |-> kept', weight |-> weight])
           /\ status' = "train" /\ UNCHANGED <<learned, weight, error, hist>>
Weights == {w \in [All -> 0..MaxWeight] : \A f \in All \ kept : w[f] = 0}
Next == /\ UNCHANGED <<final, jump>>
        /\ \/ \E w \in Weights, e \in {0, Limit + 1} : (e > 0 => error # <<>>) /\ Train(w, e)
           \/ Fail
           \/ \E S \in SUBSET kept : Cardinality(S) = Step /\ (Least(S) \/ Variant = "any") /\ Drop(S)
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
Ended == status \in {"done", "failed"}
Requested == /\ Cardinality(kept) >= final
             /\ (status = "done" /\ Cardinality(learned) > final) => error[Len(error)] > Limit
\* what was dropped had no more weight than what was left at that time
LeastGone == \A k \in DOMAIN past : \A f \in past[k].gone, g \in past[k].left : past[k].weight[f] <= past[k].weight[g]
LastLearned == status = "failed" => IF past = <<>> THEN learned = All ELSE learned = past[Len(past)].left \cup past[Len(past)].gone
Ends == <>Ended
Printed == (Emit /\ Ended) => PrintT("@H" \o ToJson([final |-> final, jump |-> jump, hist |-> hist]))
=============================================================================
