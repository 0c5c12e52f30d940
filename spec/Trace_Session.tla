---------------------------- MODULE Trace_Session ----------------------------
(***************************************************************************)
(* C18.  Record r: jobs r.jobs run in one process as r.log says, on inputs *)
(* r.streams and r.trees; r.base[j] the result of job j alone in a fresh   *)
(* process, r.res[j] its result in the session ("stopped" when aborted),   *)
(* r.again[j] its result when repeated afterwards; r.after: the trees as   *)
(* they are afterwards.                                                    *)
(***************************************************************************)
EXTENDS HidCompile, HidSession, TraceBase

InDomain(its) == LET a == Denote(its, "decl") IN a.bad = "" /\ a = Denote(its, "main")

\* Everything that was fed has been written once the stream is closed.
Full(r, j) ==
    LET d == r.jobs[j]
        b == r.bytes[j]
    IN  IF d.fmt # "binary" \/ d.mal = 1 \/ d.kind \notin {"compile", "convert"} \/ r.base[j] = "error" THEN ""
        ELSE IF ~WellFormed(b) THEN "output is not well formed"
        ELSE IF d.kind = "compile" THEN Diff(TreeMeaning(r.trees[d.src]), Denote(Items(b), "main"))
        ELSE IF ~d.opt THEN IF Items(b) # r.streams[d.src] THEN "items are lost or changed" ELSE ""
        ELSE IF ~InDomain(r.streams[d.src]) THEN ""
        ELSE IF Diff(Denote(r.streams[d.src], "main"), Denote(Items(b), "main")) # ""
        THEN Diff(Denote(r.streams[d.src], "main"), Denote(Items(b), "main"))
        ELSE IF Pending(r.streams[d.src]) # Pending(Items(b)) THEN "items after the last main item are lost or changed"
        ELSE ""

JobBad(r, j) ==
    LET p == Phases(r.log, Len(r.jobs))[j]
        what == "job " \o ToString(j) \o " (" \o r.jobs[j].kind \o "): "
    IN  IF p = "done" /\ r.res[j] # r.base[j] THEN what \o "gives " \o r.res[j] \o " in the session, alone " \o r.base[j]
        ELSE IF p = "stopped" /\ r.res[j] # "stopped" THEN what \o "not stopped"
        ELSE IF r.again[j] # r.base[j] THEN what \o "repeated later it gives " \o r.again[j] \o ", alone " \o r.base[j]
        ELSE IF p = "done" /\ Full(r, j) # "" THEN what \o Full(r, j)
        ELSE ""
Verdict(r) ==
    LET n == Len(r.jobs)
        S == {j \in 1..n : JobBad(r, j) # ""}
    IN  IF r.err # "" THEN r.err
        ELSE IF ~Assert(\A j \in 1..n : Phases(r.log, n)[j] \in {"done", "stopped"}, "log") THEN ""
        ELSE IF S # {} THEN JobBad(r, CHOOSE j \in S : \A k \in S : j <= k)
        ELSE IF r.after # r.before THEN "a tree was modified"
        ELSE ""
Info(r) == IF r.err # "" THEN {"error"} ELSE {Phases(r.log, Len(r.jobs))[j] \o " " \o r.jobs[j].kind : j \in 1..Len(r.jobs)}

VARIABLES l, bad, info
Init == l = 0 /\ bad = <<>> /\ info = NoInfo
Next == /\ l < Len(Trace)
        /\ l' = l + 1
        /\ LET r == Trace[l + 1]
               v == Verdict(r)
           IN  /\ bad' = IF v = "" THEN bad ELSE Append(bad, <<r.id, v>>)
               /\ info' = Bump(info, Info(r))
        /\ (l + 1 < Len(Trace) \/ WriteVerdict(l + 1, bad', info'))
TraceSpec == Init /\ [][Next]_<<l, bad, info>>
=============================================================================
