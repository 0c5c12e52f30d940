------------------------------- MODULE HidCli -------------------------------
(***************************************************************************)
(* The command lines of the three tools.  A command line is a sequence of  *)
(* tokens [o, v, s]: option o ("i", "o" with a format v; "O", "N"; "pos"   *)
(* with a file v), in spelling s.  Reading them left to right gives what   *)
(* the tool is asked to do.                                                *)
(***************************************************************************)
EXTENDS Integers, Sequences, SequencesExt

Tools == {"converter", "extractor", "script"}
Formats == {"binary", "hex", "code"}
Options(tool) == CASE tool = "converter" -> {"i", "o", "O"}
                   [] tool = "extractor" -> {"i"}
                   [] tool = "script"    -> {"o", "N"}
Start(tool) == [i |-> "binary", o |-> IF tool = "extractor" THEN "script" ELSE "binary",
                opt |-> tool = "script", pos |-> <<>>]
Take(s, t) == CASE t.o = "i"   -> [s EXCEPT !.i = t.v]
                [] t.o = "o"   -> [s EXCEPT !.o = t.v]
                [] t.o = "O"   -> [s EXCEPT !.opt = TRUE]
                [] t.o = "N"   -> [s EXCEPT !.opt = FALSE]
                [] t.o = "pos" -> [s EXCEPT !.pos = Append(@, t.v)]
Stream(v) == IF v = "-" THEN "std" ELSE v
Read(tool, ts) ==
    LET s == FoldLeft(Take, Start(tool), ts)
        k == Len(s.pos)
        first == IF tool = "script" THEN 0 ELSE 1
    IN  [i |-> s.i, o |-> s.o, opt |-> s.opt,
         in |-> IF first = 1 /\ k >= 1 THEN Stream(s.pos[1]) ELSE "std",
         out |-> IF k >= first + 1 THEN Stream(s.pos[first + 1]) ELSE "std"]

Long == [i |-> "--input-format", o |-> "--output-format", O |-> "--optimize", N |-> "--no-optimize"]
\* The argument strings of a token; files are named by the driver.
Args(t) == IF t.o = "pos" THEN <<t.v>>
           ELSE IF t.o \in {"O", "N"} THEN IF t.s = 1 THEN <<"-" \o t.o>> ELSE <<Long[t.o]>>
           ELSE CASE t.s = 1 -> <<"-" \o t.o, t.v>>
                  [] t.s = 2 -> <<"-" \o t.o \o t.v>>
                  [] t.s = 3 -> <<Long[t.o], t.v>>
                  [] t.s = 4 -> <<Long[t.o] \o "=" \o t.v>>
Argv(ts) == FlattenSeq([k \in 1..Len(ts) |-> Args(ts[k])])

\* What must come out: lib gives, per format, the library's results with and
\* without optimisation ("error" when it raises).
Want(tool, ts, lib) == LET c == Read(tool, ts)
                       IN  IF c.o \in DOMAIN lib THEN lib[c.o][IF c.opt THEN 2 ELSE 1] ELSE "error"
=============================================================================
