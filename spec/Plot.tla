-------------------------------- MODULE Plot --------------------------------
(* A plotting program: the settings it remembers from one statement to the   *)
(* next and the pictures it draws with them. A statement is a record         *)
(* [k, n, v, x, r, series]: its kind, the setting or function it is about,   *)
(* a text, the extension of a file name, numbers (a range, in hundredths, or *)
(* the coefficients of a function, in thousandths), and the series of a plot *)
(* with the rows that were in their files when the statement was obeyed.     *)
EXTENDS Integers, Sequences, FiniteSets, TLC

Texts == {"title", "xlabel", "ylabel", "zlabel"}
Ranges == {"xrange", "yrange", "zrange", "cbrange"}
None == "~"

Fresh == [title |-> None, xlabel |-> None, ylabel |-> None, zlabel |-> None,
          xrange |-> <<>>, yrange |-> <<>>, zrange |-> <<>>, cbrange |-> <<>>, pm3d |-> FALSE,
          terminal |-> None, output |-> None, ext |-> "", funs |-> <<>>]

\* a function is kept under its name and replaced when it is defined again
Define(fs, n, r) == Append(SelectSeq(fs, LAMBDA f : f.n # n), [n |-> n, r |-> r])
Value(fs, n) == IF \E i \in DOMAIN fs : fs[i].n = n THEN fs[CHOOSE i \in DOMAIN fs : fs[i].n = n].r ELSE <<>>

Apply(s, t) ==
    CASE t.k = "reset" -> [Fresh EXCEPT !.terminal = s.terminal, !.output = s.output, !.ext = s.ext, !.funs = s.funs]
      [] t.k = "set" /\ t.n \in Texts -> [s EXCEPT ![t.n] = t.v]
      [] t.k = "set" /\ t.n \in Ranges -> [s EXCEPT ![t.n] = t.r]
      [] t.k = "set" /\ t.n = "autoscale" -> [s EXCEPT !.xrange = <<>>, !.yrange = <<>>, !.zrange = <<>>, !.cbrange = <<>>]
      [] t.k = "set" /\ t.n = "pm3d" -> [s EXCEPT !.pm3d = TRUE]
      [] t.k = "set" /\ t.n = "terminal" -> [s EXCEPT !.terminal = t.v]
      [] t.k = "set" /\ t.n = "output" -> [s EXCEPT !.output = t.v, !.ext = t.x]
      [] t.k = "unset" /\ t.n \in Texts \cup Ranges \cup {"pm3d", "output"} -> [s EXCEPT ![t.n] = Fresh[t.n]]
      [] t.k = "fun" -> [s EXCEPT !.funs = Define(s.funs, t.n, t.r)]
      [] OTHER -> s
Draws(t) == t.k \in {"plot", "splot"}
Picture(s, t) == [k |-> t.k, set |-> s, series |-> t.series]
=============================================================================
