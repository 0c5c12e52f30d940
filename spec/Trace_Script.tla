---------------------------- MODULE Trace_Script ----------------------------
(***************************************************************************)
(* C11: recorded script generations.  r.es, r.plain, r.opt: the tree and   *)
(* its compilations; r.es2, r.plain2, r.opt2: those of the script it       *)
(* became; r.us: usages as written in the script; r.derr, r.perr, r.err:   *)
(* errors of building or decompiling, compiling and generating/running.    *)
(***************************************************************************)
EXTENDS HidScript, TraceBase

Misnamed(us) == {k \in 1..Len(us) : us[k][1] # UsageText(us[k][2])}
Verdict(r) ==
    IF r.derr # "" \/ r.perr # "" THEN ""
    ELSE IF r.err # "" THEN "script: " \o r.err
    ELSE IF r.plain2 # r.plain THEN "the script compiles to other bytes (not optimised)"
    ELSE IF r.opt2 # r.opt THEN "the script compiles to other bytes (optimised)"
    ELSE LET a == TreeMeaning(r.es)
             b == TreeMeaning(r.es2)
         IN  IF a.bad = "" /\ b.bad = "" /\ Diff(a, b) # "" THEN "the script declares something else: " \o Diff(a, b)
             ELSE IF Misnamed(r.us) # {} THEN LET u == r.us[CHOOSE k \in Misnamed(r.us) : TRUE]
                                              IN  "usage " \o ToString(u[2]) \o " is written " \o u[1] \o " instead of " \o UsageText(u[2])
             ELSE ""
Info(r) == (IF r.derr # "" THEN {"not_decompiled"} ELSE IF r.perr # "" THEN {"not_compiled"} ELSE {"scripts"})
           \cup (IF \E k \in 1..Len(r.us) : r.us[k][1] # "#" THEN {"named_usages"} ELSE {})

VARIABLES l, bad, info
Init == l = 0 /\ bad = <<>> /\ info = NoInfo
Next == /\ l < Len(Trace)
        /\ l' = l + 1
        /\ LET r == Trace[l + 1]
               v == Verdict(r)
           IN  /\ bad' = IF v = "" THEN bad ELSE Append(bad, <<r.id, v>>)
               /\ info' = Bump(info, Info(r))
        /\ (l + 1 < Len(Trace) \/ WriteVerdict(l + 1, bad', info'))
TraceSpec == Init /\ [][Next]_<<l, bad, info>>
=============================================================================
