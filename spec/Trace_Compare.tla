--------------------------- MODULE Trace_Compare ---------------------------
(***************************************************************************)
(* C23.  Record r: the item r.a against each of r.bs: r.res[i] has the     *)
(* results of ==, == swapped, !=, < and < swapped.  r.alien: == with what  *)
(* is no item (never), and != nothing (always).                            *)
(***************************************************************************)
EXTENDS HidItem, TraceBase, TLC

Flag(p) == IF p THEN 1 ELSE 0
Want(a, b) == <<Flag(a = b), Flag(a = b), Flag(a # b), Flag(Less(a, b)), Flag(Less(b, a))>>
Verdict(r) ==
    LET badk == {i \in 1..Len(r.bs) : r.res[i] # Want(r.a, r.bs[i])}
    IN  IF r.err # "" THEN r.err
        ELSE IF badk # {} THEN
             LET i == CHOOSE k \in badk : TRUE
             IN  ToString(r.a) \o " against " \o ToString(r.bs[i]) \o ": ==, ==, !=, <, > give " \o ToString(r.res[i])
        ELSE IF r.alien # <<0, 0, 0, 0, 0, 1>> THEN ToString(r.a) \o " equals what is no item"
        ELSE ""
Info(r) == {"pairs"}

VARIABLES l, bad, info
Init == l = 0 /\ bad = <<>> /\ info = NoInfo
Next == /\ l < Len(Trace)
        /\ l' = l + 1
        /\ LET r == Trace[l + 1]
               v == Verdict(r)
           IN  /\ bad' = IF v = "" THEN bad ELSE Append(bad, <<r.id, v>>)
               /\ info' = Bump(info, Info(r))
        /\ (l + 1 < Len(Trace) \/ WriteVerdict(l + 1, bad', info'))
TraceSpec == Init /\ [][Next]_<<l, bad, info>>
=============================================================================
