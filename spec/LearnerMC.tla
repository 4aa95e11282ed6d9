------------------------------ MODULE LearnerMC ------------------------------
(* The life of learners: a dataset is a cell with a content, a learner keeps *)
(* a copy of what it was given, training works on that copy alone (it may    *)
(* reorder it or write to it), a model depends on what the copy held.        *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS Learners, Sets, Len_, Variant, Emit
VARIABLES cell, copy, scratch, model, given, fresh, answers, hist
vars == <<cell, copy, scratch, model, given, fresh, answers, hist>>
None == 0
Init == /\ cell = [d \in Sets |-> d] /\ copy = [x \in Learners |-> None] /\ scratch = [x \in Learners |-> 0]
        /\ model = [x \in Learners |-> <<>>] /\ given = [x \in Learners |-> None] /\ fresh = [x \in Learners |-> TRUE]
        /\ answers = [x \in Learners |-> <<>>] /\ hist = <<>>
Log(o) == hist' = Append(hist, o)
\* what the learner sees when it looks at its samples: its copy, or through a shared cell
Held(x) == IF Variant = "shares" /\ given[x] # None THEN cell[given[x]] ELSE copy[x]
Give(x, d) == /\ copy' = [copy EXCEPT ![x] = cell[d]] /\ given' = [given EXCEPT ![x] = d]
              /\ model' = [model EXCEPT ![x] = <<>>] /\ answers' = [answers EXCEPT ![x] = <<>>]
              /\ UNCHANGED <<cell, scratch, fresh>> /\ Log(<<"give", x, d>>)
Change(d) == /\ cell' = [cell EXCEPT ![d] = @ + 10]
             /\ UNCHANGED <<copy, scratch, model, given, fresh, answers>> /\ Log(<<"change", d, 0>>)
Train(x) == /\ copy[x] # None
            /\ scratch' = [scratch EXCEPT ![x] = Held(x)]
            /\ cell' = IF Variant = "writes" THEN [cell EXCEPT ![given[x]] = @ + 1] ELSE cell
            /\ model' = [model EXCEPT ![x] = IF Variant = "remembers" THEN <<Held(x), scratch[x]>> ELSE <<Held(x)>>]
            /\ answers' = [answers EXCEPT ![x] = <<>>] /\ fresh' = [fresh EXCEPT ![x] = FALSE]
            /\ UNCHANGED <<copy, given>> /\ Log(<<"train", x, 0>>)
Answer(x) == IF Variant = "lazy" THEN <<Held(x) + (IF given[x] = None THEN 0 ELSE cell[given[x]])>> ELSE model[x]
Ask(x) == /\ model[x] # <<>> /\ answers' = [answers EXCEPT ![x] = Append(@, Answer(x))]
          /\ UNCHANGED <<cell, copy, scratch, model, given, fresh>> /\ Log(<<"ask", x, 0>>)
Next == /\ Len(hist) < Len_
        /\ \/ \E d \in Sets : Change(d)
           \/ \E x \in Learners : Train(x) \/ Ask(x) \/ \E d \in Sets : Give(x, d)
Spec == Init /\ [][Next]_vars
\* only the caller changes datasets
CallersOnly == [][\A d \in Sets : cell'[d] # cell[d] => hist'[Len(hist')] = <<"change", d, 0>>]_vars
Depends == \A x \in Learners : model[x] # <<>> => model[x] = <<copy[x]>>
Stable == \A x \in Learners : \A i, j \in DOMAIN answers[x] : answers[x][i] = answers[x][j]
Printed == (Emit /\ Len(hist) = Len_ /\ hist[Len_][1] = "ask") => PrintT("@H" \o ToJson(hist))
=============================================================================
