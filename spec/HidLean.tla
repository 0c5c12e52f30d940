------------------------------ MODULE HidLean ------------------------------
(***************************************************************************)
(* The redundancies the optimiser exists to remove, as predicates over an  *)
(* item stream.                                                            *)
(***************************************************************************)
EXTENDS HidOpt

(*--- globals that set what is already in effect -----------------------------*)
GRInit == [g |-> [t \in 0..9 |-> IF t \in 3..6 THEN <<Z32>> ELSE <<>>], st |-> <<>>, bad |-> <<>>]
GRStep(s, it) ==
    IF it[1] # Global THEN s
    ELSE IF it[2] = 10 THEN [s EXCEPT !.st = Append(@, s.g)]
    ELSE IF it[2] = 11 THEN IF s.st = <<>> THEN s ELSE [s EXCEPT !.g = Pops(s.st), !.st = Drop1(@)]
    ELSE IF s.g[it[2]] = <<Val(it)>> THEN [s EXCEPT !.bad = Append(@, it)]
    ELSE [s EXCEPT !.g[it[2]] = <<Val(it)>>]
RedundantGlobals(its) == FoldLeft(GRStep, GRInit, its).bad

(*--- per data item: explicit physical range equal to the logical one, and ---*)
(*--- consecutive usages not written as a range --------------------------------*)
UsageItems(x) == SelectSeq(x, LAMBDA it : it[1] = Local /\ it[2] \in {0, 1, 2})
DIInit == [h |-> HostInit("main"), loc |-> <<>>, bad |-> <<>>]
DIStep(s, it) ==
    LET h1 == HostStep(s.h, it)
        g  == s.h.g
        runs == Resolve(s.h.u, g[GPage][2])
        us == UsageItems(s.loc)
        p1 == IF (g[GPMin] # Z32 \/ g[GPMax] # Z32) /\ g[GPMin] = g[GLMin] /\ g[GPMax] = g[GLMax]
              THEN <<"physical range equal to the logical range is declared">> ELSE <<>>
        p2 == IF Len(runs) = 1 /\ RunLen(runs) >= 3 /\ \A i \in 1..Len(us) : us[i][2] = 0
              THEN <<"consecutive usages are not declared as one range">> ELSE <<>>
    IN  IF it[1] # Main THEN [s EXCEPT !.h = h1, !.loc = Append(@, it)]
        ELSE IF ~IsData(it) \/ FConst(Val(it)) THEN [s EXCEPT !.h = h1, !.loc = <<>>]
        ELSE [h |-> h1, loc |-> <<>>, bad |-> s.bad \o p1 \o p2]
DataRedundant(its) == FoldLeft(DIStep, DIInit, its).bad

Lean(its) == RedundantGlobals(its) = <<>> /\ DataRedundant(its) = <<>>
=============================================================================
