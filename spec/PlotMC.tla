------------------------------- MODULE PlotMC -------------------------------
(* A session of plotting calls. The calls write statements to the plotting   *)
(* program, which obeys them when it gets to it; the points of a plot are in *)
(* files, in a folder of the sample on show, which it reads when it draws.   *)
(* Whatever came before a call, and however late its statements are obeyed,  *)
(* the picture is the one the call asked for. In a shared session one        *)
(* program serves all calls; otherwise each call has its own and waits for   *)
(* it to end.                                                                *)
EXTENDS Plot, Json
CONSTANTS Calls, Titles, Variant, Emit
VARIABLES shared, hist, queue, prog, folders, cur, wants, pics, open
vars == <<shared, hist, queue, prog, folders, cur, wants, pics, open>>

Call == [k : {"plot", "splot"}, title : 0..Titles, save : BOOLEAN, marks : BOOLEAN]
Text(c) == IF c.title = 0 THEN None ELSE IF c.title = 1 THEN "one" ELSE "two"
St(k, n, v, r, series) == [k |-> k, n |-> n, v |-> v, x |-> "", r |-> r, series |-> series]
\* the limits of the axes follow the sample, those of the third axis are set by calls that have one
Script(c, f) ==
    (IF Variant = "keeps" THEN <<>> ELSE <<St("reset", "", None, <<>>, <<>>)>>) \o
    (IF c.save THEN <<St("set", "terminal", "svg", <<>>, <<>>), St("set", "output", "file", <<>>, <<>>)>>
     ELSE (IF Variant = "unsaved" THEN <<>> ELSE <<St("set", "output", None, <<>>, <<>>)>>) \o <<St("set", "terminal", "wxt", <<>>, <<>>)>>) \o
    (IF c.title = 0 THEN <<>> ELSE <<St("set", "title", Text(c), <<>>, <<>>)>>) \o
    <<St("set", "xrange", None, <<f, f>>, <<>>)>> \o
    (IF c.k = "splot" THEN <<St("set", "zrange", None, <<f, f>>, <<>>)>> ELSE <<>>) \o
    (IF c.marks THEN <<St("fun", "f", None, <<f>>, <<>>)>> ELSE <<>>) \o
    <<St(c.k, "", None, <<>>, <<f>> \o (IF c.marks THEN <<-1>> ELSE <<>>))>>
Wanted(c, f) ==
    [k |-> c.k, title |-> Text(c), terminal |-> IF c.save THEN "svg" ELSE "wxt", output |-> IF c.save THEN "file" ELSE None,
     xrange |-> <<f, f>>, zrange |-> IF c.k = "splot" THEN <<f, f>> ELSE <<>>, rows |-> f, mark |-> IF c.marks THEN <<f>> ELSE <<>>]
\* what is on the picture: a folder that is gone shows nothing (0)
Drawn(s, t) ==
    [k |-> t.k, title |-> s.title, terminal |-> s.terminal, output |-> s.output, xrange |-> s.xrange, zrange |-> s.zrange,
     rows |-> IF t.series[1] \in folders THEN t.series[1] ELSE 0, mark |-> IF Len(t.series) > 1 THEN Value(s.funs, "f") ELSE <<>>]

Init == /\ shared \in BOOLEAN /\ hist = <<>> /\ queue = <<>> /\ prog = Fresh /\ folders = {1} /\ cur = 1
        /\ wants = <<>> /\ pics = <<>> /\ open = TRUE
Free == shared \/ queue = <<>>
Plot(c) ==
    /\ open /\ Free /\ Len(hist) < Calls
    /\ queue' = queue \o Script(c, cur)
    /\ prog' = IF shared THEN prog ELSE Fresh
    /\ wants' = Append(wants, Wanted(c, cur))
    /\ hist' = Append(hist, [e |-> "plot"] @@ c)
    /\ UNCHANGED <<shared, folders, cur, pics, open>>
Sample ==
    /\ open /\ Free /\ Len(hist) < Calls
    /\ cur' = cur + 1
    /\ folders' = (IF shared /\ Variant # "early" THEN folders ELSE folders \ {cur}) \cup {cur + 1}
    /\ hist' = Append(hist, [e |-> "sample"])
    /\ UNCHANGED <<shared, queue, prog, wants, pics, open>>
Obey ==
    /\ queue # <<>>
    /\ LET t == Head(queue) IN
       /\ prog' = Apply(prog, t)
       /\ pics' = IF Draws(t) THEN Append(pics, Drawn(prog, t)) ELSE pics
    /\ queue' = Tail(queue)
    /\ UNCHANGED <<shared, hist, folders, cur, wants, open>>
\* the plotter is destroyed: it waits for the program to end before it removes its folders
Close ==
    /\ open /\ (Variant = "hasty" \/ queue = <<>>) /\ Len(hist) = Calls
    /\ folders' = {} /\ open' = FALSE
    /\ UNCHANGED <<shared, hist, queue, prog, cur, wants, pics>>
Done == ~open /\ queue = <<>> /\ UNCHANGED vars
Next == (\E c \in Call : Plot(c)) \/ Sample \/ Obey \/ Close \/ Done
Spec == Init /\ [][Next]_vars

AsAsked == \A i \in DOMAIN pics : pics[i] = wants[i]
All == (~open /\ queue = <<>>) => (Len(pics) = Len(wants) /\ folders = {})
\* the folder of the sample on show is there as long as it can be plotted
Ready == open => cur \in folders
Printed == Emit /\ ~open /\ queue = <<>> => PrintT("@H" \o ToJson([shared |-> shared, ops |-> hist]))
=============================================================================
