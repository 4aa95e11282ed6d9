----------------------------- MODULE FeatRankMC -----------------------------
(* Score-based selection: features are dropped in the order of their scores, *)
(* a learner is trained on what is left; the first failure ends the run with *)
(* the last set of features that could be learned.                           *)
EXTENDS Integers, FiniteSets, Sequences, TLC, Json
CONSTANTS D, MaxScore, Variant, Emit
VARIABLES score, number, kept, learned, status, fails
vars == <<score, number, kept, learned, status, fails>>
All == 1..D
Init == /\ score \in [All -> 0..MaxScore] /\ number \in 1..D
        /\ kept = All /\ learned = All /\ status = "run" /\ fails = 0
Lowest == {f \in kept : \A g \in kept : IF Variant = "highest" THEN score[f] >= score[g] ELSE score[f] <= score[g]}
Drop(f, ok) ==
    /\ kept' = kept \ {f}
    /\ learned' = IF ok \/ Variant = "forgets" THEN kept' ELSE learned
    /\ status' = IF ~ok THEN "failed" ELSE "run"
    /\ fails' = IF ok THEN fails ELSE D - Cardinality(kept')
Stop == /\ Cardinality(kept) = (IF Variant = "onemore" THEN number - 1 ELSE number)
        /\ status' = "done" /\ UNCHANGED <<kept, learned, fails>>
Next == /\ status = "run" /\ UNCHANGED <<score, number>>
        /\ \/ Stop
           \/ ~ENABLED Stop /\ \E f \in Lowest, ok \in BOOLEAN : Drop(f, ok)
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
Ranked == \A f \in learned, g \in All \ learned : score[f] >= score[g]
Requested == /\ status = "done" => Cardinality(learned) = number
             /\ status = "failed" => Cardinality(learned) > number
Learned == status = "failed" => Cardinality(learned) = Cardinality(kept) + 1
Ends == <>(status # "run")
Printed == (Emit /\ status # "run") =>
    PrintT("@H" \o ToJson([score |-> score, number |-> number, fails |-> fails]))
=============================================================================
