----------------------------- MODULE KernelCache -----------------------------
(* The kernel matrix as a cache: what a computation has to return after any  *)
(* history of changes of the type, the parameter and the data.               *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS Types, Params, Versions, Len_, Variant, Emit
VARIABLES type, param, data, matrix, valid, touched, hist
vars == <<type, param, data, matrix, valid, touched, hist>>
None == <<>>
Init == /\ type = 0 /\ param = 2 /\ data = 1 /\ matrix = None /\ valid = FALSE /\ touched = FALSE /\ hist = <<>>
Log(o) == hist' = Append(hist, o)
SetType(t) == /\ type' = t /\ valid' = FALSE /\ UNCHANGED <<param, data, matrix, touched>> /\ Log(<<"settype", t>>)
SetParam(p) == /\ param' = p /\ valid' = (IF Variant = "paramForgotten" THEN valid ELSE FALSE)
               /\ UNCHANGED <<type, data, matrix, touched>> /\ Log(<<"setparam", p>>)
Change(d) == /\ d # data /\ data' = d /\ touched' = (valid \/ touched) /\ UNCHANGED <<type, param, matrix, valid>> /\ Log(<<"data", d>>)
Recompute == /\ valid' = FALSE /\ UNCHANGED <<type, param, data, matrix, touched>> /\ Log(<<"recompute", 0>>)
Compute == /\ matrix' = (IF valid THEN matrix ELSE <<type, param, data>>)
           /\ valid' = TRUE /\ touched' = (IF valid THEN touched ELSE FALSE)
           /\ UNCHANGED <<type, param, data>> /\ Log(<<"compute", 0>>)
Next == /\ Len(hist) < Len_
        /\ \/ \E t \in Types : SetType(t)
           \/ \E p \in Params : SetParam(p)
           \/ \E d \in Versions : Change(d)
           \/ Recompute \/ Compute
Spec == Init /\ [][Next]_vars
\* a matrix is current unless the data changed after it and nobody asked for recomputation
Current == valid => matrix[1] = type /\ matrix[2] = param /\ (~touched => matrix[3] = data)
Stable == [][(valid /\ valid') => matrix' = matrix]_vars
Printed == (Emit /\ Len(hist) = Len_ /\ hist[Len_][1] = "compute") => PrintT("@H" \o ToJson(hist))
=============================================================================
