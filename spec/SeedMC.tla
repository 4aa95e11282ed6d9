------------------------------- MODULE SeedMC -------------------------------
(* One global random generator and functions that take a seed: either they   *)
(* have a generator of their own, or they seed the global one; in between    *)
(* others seed it or draw from it. A result must depend on the seed alone.   *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS Seeds, Len_, Variant, Emit
VARIABLES gen, last, results, hist
vars == <<gen, last, results, hist>>
\* gen: the seed the global generator was started with and how much was drawn since; 0 stands for the entropy source
Init == gen = <<0, 0>> /\ last = 1 /\ results = {} /\ hist = <<>>
Started(s) == IF Variant = "guard" /\ s = last THEN gen ELSE <<s, 0>>
Drawn(g, k) == <<g[1], g[2] + k>>
Own(s) == /\ results' = results \cup {<<"own", s, <<s, 0>>>>} /\ UNCHANGED <<gen, last>>
          /\ hist' = Append(hist, <<"own", s>>)
Global(s) == LET g == Started(s) IN
          /\ results' = results \cup {<<"global", s, g>>} /\ last' = s
          /\ gen' = Drawn(IF Variant = "nested" THEN Started(s) ELSE g, 2)
          /\ hist' = Append(hist, <<"global", s>>)
Noise(s) == /\ gen' = Drawn(IF s = 0 THEN gen ELSE Started(s), 1) /\ last' = (IF s = 0 THEN last ELSE s) /\ UNCHANGED results
            /\ hist' = Append(hist, <<"noise", s>>)
Next == /\ Len(hist) < Len_
        /\ \/ \E s \in Seeds : Own(s) \/ Global(s)
           \/ \E s \in Seeds \cup {0} : Noise(s)
Spec == Init /\ [][Next]_vars
Reproducible == \A a, b \in results : a[1] = b[1] /\ a[2] = b[2] => a[3] = b[3]
Calls == {i \in DOMAIN hist : hist[i][1] # "noise"}
Printed == (Emit /\ Len(hist) = Len_ /\ \E i, j \in Calls : i < j /\ hist[i] = hist[j]) => PrintT("@H" \o ToJson(hist))
=============================================================================
