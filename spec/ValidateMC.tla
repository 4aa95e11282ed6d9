----------------------------- MODULE ValidateMC -----------------------------
(* Kind "count": a matrix filled one prediction at a time. Kind "cv": k-fold *)
(* evaluation over any split into folds.                                     *)
EXTENDS Validate, TLC, Json
CONSTANTS Kind, N, K, Labels, Variant, Emit
VARIABLES ys, ps, i, m, fold, runs, wrong
vars == <<ys, ps, i, m, fold, runs, wrong>>
RECURSIVE ListTo(_, _)
ListTo(s, n) == IF n = 0 THEN <<>> ELSE
    LET before == ListTo(s, n - 1) IN IF \E j \in DOMAIN before : before[j] = s[n] THEN before ELSE Append(before, s[n])
Classes == ListTo(ys, Len(ys))
At(c) == CHOOSE j \in DOMAIN Classes : Classes[j] = c

CountInit == /\ \E n \in 1..N : ys \in [1..n -> Labels] /\ ps \in [1..n -> Labels]
             /\ SetOf(ps) \subseteq SetOf(ys)
             /\ i = 1 /\ m = [a \in DOMAIN Classes |-> [b \in DOMAIN Classes |-> 0]]
             /\ fold = <<>> /\ runs = <<>> /\ wrong = <<>>
CountStep == /\ i <= Len(ys)
             /\ m' = IF Variant = "transposed" THEN [m EXCEPT ![At(ps[i])][At(ys[i])] = @ + 1]
                     ELSE [m EXCEPT ![At(ys[i])][At(ps[i])] = @ + 1]
             /\ i' = i + 1 /\ UNCHANGED <<ys, ps, fold, runs, wrong>>
Done == Kind = "count" /\ i > Len(ys)
Filled == Done => m = Matrix(ys, ps, Classes)
RowSums == Done => \A c \in DOMAIN Classes :
    SumTo(m[c], Len(Classes)) = Cardinality({q \in DOMAIN ys : ys[q] = Classes[c]})
Diagonal == Done => SumTo([c \in DOMAIN Classes |-> m[c][c]], Len(Classes)) = Right(ys, ps)
Partition == Done => \A P \in SUBSET SetOf(ys) : LET t == Counts(ys, ps, P) IN
    /\ t.tp + t.tn + t.fp + t.fn = Len(ys)
    /\ t.tp + t.tn = Right(ys, ps)
    /\ t.tp + t.fn = Cardinality({q \in DOMAIN ys : ys[q] \in P})

\* fold[p]: the fold of point p; i: the fold held out next
CvInit == /\ \E n \in K..N : fold \in {f \in [1..n -> 1..K] : SetOf(f) = 1..K}
          /\ ys = <<>> /\ ps = <<>> /\ m = <<>> /\ i = 1 /\ runs = <<>> /\ wrong = <<>>
Ordered(S) == LET F[T \in SUBSET S] == IF T = {} THEN <<>> ELSE LET x == CHOOSE x \in T : \A y \in T : x <= y IN <<x>> \o F[T \ {x}] IN F[S]
CvStep == /\ i <= K
          /\ LET out == {p \in DOMAIN fold : fold[p] = i}
                 in == IF Variant = "leak" THEN DOMAIN fold
                       ELSE IF Variant = "twoFold" /\ K = 2 THEN {p \in DOMAIN fold : fold[p] = 1} ELSE DOMAIN fold \ out IN
             /\ runs' = Append(runs, [train |-> Ordered(in), tested |-> Ordered(out)])
             /\ \E k \in 0..Cardinality(out) : wrong' = Append(wrong, k)
          /\ i' = i + 1 /\ UNCHANGED <<ys, ps, m, fold>>
CvDone == Kind = "cv" /\ i > K
Held == CvDone => HeldOut(runs, DOMAIN fold)
\* the mean error lies between the best and the worst fold, and equals the overall error for equal folds
MeanLaws == CvDone =>
    /\ (\A r \in DOMAIN wrong : wrong[r] = 0) => MeanError(0, wrong, Sizes(runs))
    /\ (\A r \in DOMAIN wrong : wrong[r] = Sizes(runs)[r]) => MeanError(100000, wrong, Sizes(runs))
    /\ (\A r, q \in DOMAIN wrong : Sizes(runs)[r] = Sizes(runs)[q]) =>
          MeanError((100000 * SumTo(wrong, K)) \div Len(fold), wrong, Sizes(runs))

Init == IF Kind = "count" THEN CountInit ELSE CvInit
Next == (Kind = "count" /\ CountStep) \/ (Kind = "cv" /\ CvStep)
Spec == Init /\ [][Next]_vars
Printed == (Emit /\ i = 1) => PrintT("@H" \o ToJson([ys |-> ys, ps |-> ps, fold |-> fold]))
=============================================================================
