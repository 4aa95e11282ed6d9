------------------------------- MODULE VectorMC -------------------------------
(* Part "registers": three points changed by copies, assignments and         *)
(* expressions, where an expression only refers to its operands and is       *)
(* evaluated element by element while it is stored.                          *)
(* Part "laws": every pair of small points; the definitions of the distances *)
(* have the properties of distances, the reductions obey the usual laws.     *)
EXTENDS Vector, TLC, Json
CONSTANTS Dim, Wide, From, Part, Len_, Variant, Emit
VARIABLES reg, meta, hist, p, q
vars == <<reg, meta, hist, p, q>>
Span == {v + From - 50 : v \in 0..Wide}
Points == [1..Dim -> Span]
Regs == 1..3
Start == <<[i \in 1..Dim |-> i], [i \in 1..Dim |-> 3 - 2 * i], [i \in 1..Dim |-> 2]>>
Init == IF Part = "registers" THEN reg = Start /\ meta = <<1, 2, 3>> /\ hist = <<>> /\ p = <<>> /\ q = <<>>
        ELSE reg = <<>> /\ meta = <<>> /\ hist = <<>> /\ p \in Points /\ q \in Points
\* expressions: a register, or a code of two registers
Codes == {<<a>> : a \in Regs} \cup {<<10 + o, a, b>> : o \in {0, 1, 2}, a \in Regs, b \in Regs} \cup {<<42, 2, a>> : a \in Regs} \cup {<<21, a, 4, b>> : a \in Regs, b \in Regs}
\* storing element by element: later elements see the earlier ones when the target is an operand
RECURSIVE Store(_, _, _, _)
Store(R, d, c, i) == IF i > Dim THEN R ELSE Store([R EXCEPT ![d][i] = Value(R, c)[i]], d, c, i + 1)
Copy(d, s) == /\ reg' = [reg EXCEPT ![d] = reg[s]] /\ meta' = [meta EXCEPT ![d] = meta[s]] /\ hist' = Append(hist, <<"copy", d, s, <<>> >>)
Assign(d, s) == /\ reg' = [reg EXCEPT ![d] = reg[s]] /\ meta' = [meta EXCEPT ![d] = 0] /\ hist' = Append(hist, <<"assign", d, s, <<>> >>)
Let(d, c) == /\ reg' = (IF Variant = "shift" THEN [Store(reg, d, c, 1) EXCEPT ![d] = [i \in 1..Dim |-> @[IF i = Dim THEN 1 ELSE i + 1]]] ELSE Store(reg, d, c, 1))
             /\ meta' = [meta EXCEPT ![d] = 0] /\ hist' = Append(hist, <<"let", d, 0, c>>)
Next == /\ Part = "registers" /\ Len(hist) < Len_ /\ UNCHANGED <<p, q>>
        /\ \E d \in Regs : \/ \E s \in Regs \ {d} : Copy(d, s) \/ Assign(d, s)
                           \/ \E c \in Codes : Let(d, c)
Spec == Init /\ [][Next]_vars
\* storing an expression changes one register and gives it the value of the expression before
Stored == [][hist' # hist =>
    LET h == hist'[Len(hist')] d == h[2] IN
    /\ \A k \in Regs \ {d} : reg'[k] = reg[k] /\ meta'[k] = meta[k]
    /\ reg'[d] = IF h[1] = "let" THEN Value(reg, h[4]) ELSE reg[h[3]]]_vars
Followed == Part = "registers" => \A k \in Regs : Whole(reg[k])

\* broken definitions, to see that the laws notice them
D(m, a, b) ==
    IF Variant = "half" /\ m = "NonIntersection" THEN 0
    ELSE IF Variant = "max" /\ m = "MinSymmetric" THEN Dist("MaxSymmetric", a, b)
    ELSE IF Variant = "oneside" /\ m = "JensenShannon" THEN Dist("KDivergence", a, b)
    ELSE IF Variant = "plus" /\ m = "KumarJohnson" THEN SumBig([i \in DOMAIN a |-> Frac((a[i] + b[i]) * (a[i] + b[i]), 2)])
    ELSE Dist(m, a, b)
Def(m) == Applies(m, p, q) /\ Applies(m, q, p) /\ D(m, p, q) # Big /\ D(m, q, p) # Big
Laws == Part = "laws" =>
    /\ \A m \in Names : Def(m) =>
         /\ (m \notin Directed => Abs(D(m, p, q) - D(m, q, p)) <= Slack(m, p))
         /\ (m \notin Directed \cup {"Cosine", "Bhattacharyya"} => D(m, p, q) >= Zero(m) - Slack(m, p))
         /\ ((m \notin {"Bhattacharyya"} /\ p = q) => Abs(D(m, p, q) - Zero(m)) <= Slack(m, p))
         /\ ((m \notin Directed \cup {"Cosine", "Bhattacharyya"} /\ p # q /\ Wide < 5) => D(m, p, q) > Zero(m))
    /\ Dot(p, q) = Dot(q, p) /\ Dot(p, q) * Dot(p, q) <= Dot(p, p) * Dot(q, q)
    /\ Linf(p) <= L1(p) /\ Linf(p) * Linf(p) <= Dot(p, p) /\ Dot(p, p) <= L1(p) * L1(p)
    /\ Var(p) >= 0 /\ Cov(p, q) = Cov(q, p) /\ Cov(p, p) = Var(p) /\ (Var(p) = 0) = (Max(p) = Min(p))
    /\ (Def("MinSymmetric") => D("MinSymmetric", p, q) <= D("MaxSymmetric", p, q)
          /\ D("MinSymmetric", p, q) + D("MaxSymmetric", p, q) = D("Neyman", p, q) + D("Pearson", p, q))
    \* every point between them
    /\ \A z \in Points : \A m \in {"Manhattan", "Chebyshev", "Canberra", "AverageL1Linf", "Hassanat", "NonIntersection"} :
         (Applies(m, p, q) /\ Applies(m, p, z) /\ Applies(m, z, q)) => D(m, p, q) <= D(m, p, z) + D(m, z, q) + 2 * Slack(m, p)
Printed == Emit => (IF Part = "laws" THEN PrintT("@H" \o ToJson(<<p, q>>)) ELSE (Len(hist) = Len_ => PrintT("@H" \o ToJson(hist))))
=============================================================================
