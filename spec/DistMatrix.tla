----------------------------- MODULE DistMatrix -----------------------------
(* Workers fill a distance matrix in parallel. The points are stored in an   *)
(* order that need not be the order of their ids; every block of positions   *)
(* is handled by one worker, which allocates a row and writes its entries    *)
(* one at a time.                                                            *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS N, MaxBlocks, Variant, Emit
VARIABLES ids, tri, blocks, at, rows, fault
vars == <<ids, tri, blocks, at, rows, fault>>

Perms == {f \in [1..N -> 1..N] : \A i, j \in 1..N : i # j => f[i] # f[j]}
Cuts(n, b) == LET size == n \div b IN
    IF size = 0 THEN [t \in 1..n |-> <<t, t>>]
    ELSE [t \in 1..b |-> <<(t - 1) * size + 1, IF t = b THEN n ELSE t * size>>]
None == <<>>
RowLen(r) == IF tri THEN r ELSE N
\* one entry needs one write: <<position, position>> in the order the worker makes them
Init == /\ ids \in Perms /\ tri \in BOOLEAN
        /\ \E b \in 1..MaxBlocks : blocks = Cuts(N, b)
        /\ at = [t \in DOMAIN blocks |-> <<blocks[t][1], 0>>]    \* 0: the row is to be allocated
        /\ rows = [r \in 1..N |-> None] /\ fault = FALSE

\* the row a position allocates, and the entry the pair (position, j) writes
RowOf(p) == IF Variant = "byPosition" THEN p ELSE ids[p]
Wanted(p, j) == IF Variant = "byPosition" THEN (j < p \/ ~tri) /\ j # p
                ELSE IF tri THEN ids[j] < ids[p] ELSE j # p
Step(t) ==
    LET p == at[t][1]
        j == at[t][2] IN
    /\ p <= blocks[t][2]
    /\ IF j = 0 THEN
            /\ rows' = [rows EXCEPT ![RowOf(p)] = [k \in 1..RowLen(RowOf(p)) |-> <<0, 0>>]]
            /\ at' = [at EXCEPT ![t] = <<p, 1>>] /\ UNCHANGED fault
       ELSE /\ at' = [at EXCEPT ![t] = IF j = N THEN <<p + 1, 0>> ELSE <<p, j + 1>>]
            /\ IF ~Wanted(p, j) THEN UNCHANGED <<rows, fault>>
               ELSE IF ids[j] \in DOMAIN rows[ids[p]]
               THEN rows' = [rows EXCEPT ![ids[p]][ids[j]] = <<ids[p], ids[j]>>] /\ UNCHANGED fault
               ELSE fault' = TRUE /\ UNCHANGED rows     \* a write outside the row
    /\ UNCHANGED <<ids, tri, blocks>>
Next == \E t \in DOMAIN blocks : Step(t)
Spec == Init /\ [][Next]_vars
FairSpec == Spec /\ WF_vars(Next)

Finished == \A t \in DOMAIN blocks : at[t][1] > blocks[t][2]
Complete == \A a, b \in 1..N : (~tri \/ b <= a) =>
    /\ b \in DOMAIN rows[a]
    /\ rows[a][b] = IF a = b THEN <<0, 0>> ELSE <<a, b>>
NoStrayWrite == ~fault
FinishedIsComplete == Finished => Complete
Terminates == <>Finished
OnlyInitial == TLCGet("level") <= 1
Printed == (Emit /\ at = [t \in DOMAIN blocks |-> <<blocks[t][1], 0>>] /\ rows = [r \in 1..N |-> None])
           => PrintT("@H" \o ToJson([ids |-> ids, tri |-> tri, blocks |-> Len(blocks)]))
=============================================================================
