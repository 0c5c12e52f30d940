------------------------------ MODULE Trace_Cli ------------------------------
(***************************************************************************)
(* C16.  Record r: the tool r.tool run with tokens r.ts on an input of     *)
(* malformation r.mal; its exit status r.rc, output r.out (hex digits) and *)
(* r.lib, the library's results for the same input.                        *)
(***************************************************************************)
EXTENDS HidCli, TraceBase

Clip(s) == ToString(s)
Verdict(r) ==
    LET want == Want(r.tool, r.ts, r.lib)
        what == r.tool \o " " \o ToString(r.argv) \o ": "
    IN  IF r.hung THEN what \o "no end"
        ELSE IF r.mal # "no" THEN IF r.rc = 0 THEN what \o "exit status 0 on " \o r.mal \o " input" ELSE ""
        ELSE IF want = "error" THEN IF r.rc = 0 THEN what \o "exit status 0 where the library raises" ELSE ""
        ELSE IF r.rc # 0 THEN what \o "exit status " \o ToString(r.rc) \o ": " \o r.err
        ELSE IF r.out # want THEN what \o "gives " \o r.out \o " instead of " \o want
        ELSE IF r.stray # "" THEN what \o "also writes " \o r.stray
        ELSE ""
Info(r) == {r.tool, IF r.mal # "no" THEN r.mal ELSE IF Want(r.tool, r.ts, r.lib) = "error" THEN "library raises" ELSE "compared"}

VARIABLES l, bad, info
Init == l = 0 /\ bad = <<>> /\ info = NoInfo
Next == /\ l < Len(Trace)
        /\ l' = l + 1
        /\ LET r == Trace[l + 1]
               v == Verdict(r)
           IN  /\ bad' = IF v = "" THEN bad ELSE Append(bad, <<r.id, v>>)
               /\ info' = Bump(info, Info(r))
        /\ (l + 1 < Len(Trace) \/ WriteVerdict(l + 1, bad', info'))
TraceSpec == Init /\ [][Next]_<<l, bad, info>>
=============================================================================
