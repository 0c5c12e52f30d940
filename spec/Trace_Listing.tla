--------------------------- MODULE Trace_Listing ---------------------------
(***************************************************************************)
(* C17: recorded listings r.outs (how, lines, err) of the items r.its (if  *)
(* r.wf = 1) or of a tree.                                                 *)
(***************************************************************************)
EXTENDS HidListing, TraceBase

\* The items of the lines, one each, or why not.
LineItems(ls) ==
    FoldLeft(LAMBDA a, i : IF a.v # "" THEN a
                           ELSE LET d == Decode(ls[i].b)
                                IN  IF d.bad = "" /\ Len(d.items) = 1 /\ ls[i].c = 1 THEN [a EXCEPT !.its = Append(@, d.items[1])]
                                    ELSE [a EXCEPT !.v = "line " \o ToString(i) \o " is not one item and its comment"],
             [v |-> "", its |-> <<>>], [i \in 1..Len(ls) |-> i])
OutDiff(r, o) ==
    IF o.err # "" THEN o.err
    ELSE LET x == LineItems(o.lines)
             y == LRun(x.its, o.lines)
         IN  IF x.v # "" THEN x.v
             ELSE IF r.wf = 1 /\ o.how = "plain" /\ x.its # r.its THEN "the lines are not the items"
             ELSE IF y.v # "" THEN y.v
             ELSE IF ~IndentOk(y.ds, o.lines) THEN "indentation" ELSE ""
RECURSIVE FirstOut(_, _)
FirstOut(r, k) == IF k > Len(r.outs) THEN "" ELSE LET v == OutDiff(r, r.outs[k]) IN IF v # "" THEN r.outs[k].how \o ": " \o v ELSE FirstOut(r, k + 1)
Verdict(r) == FirstOut(r, 1)
Info(r) == {"listings"}

VARIABLES l, bad, info
Init == l = 0 /\ bad = <<>> /\ info = NoInfo
Next == /\ l < Len(Trace)
        /\ l' = l + 1
        /\ LET r == Trace[l + 1]
               v == Verdict(r)
           IN  /\ bad' = IF v = "" THEN bad ELSE Append(bad, <<r.id, v>>)
               /\ info' = Bump(info, Info(r))
        /\ (l + 1 < Len(Trace) \/ WriteVerdict(l + 1, bad', info'))
TraceSpec == Init /\ [][Next]_<<l, bad, info>>
=============================================================================
