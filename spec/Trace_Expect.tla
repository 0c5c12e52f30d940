---------------------------- MODULE Trace_Expect ----------------------------
(***************************************************************************)
(* C19.  Record r: the optimised compilation r.opt of a descriptor (r.err  *)
(* when it has none), and for each plan r.muts[i] the expected text        *)
(* r.runs[i].t and the outcome r.runs[i].ok of a test using the helper.    *)
(***************************************************************************)
EXTENDS HidText, HidExpect, TraceBase

RunBad(r, i) ==
    LET d == CodeLex(r.runs[i].t)
        same == d.b = r.opt
    IN  IF r.muts[i][1] = "over" /\ r.opt # <<>> THEN IF r.runs[i].ok THEN "more than a byte is accepted" ELSE ""
        ELSE IF d.bad # "" THEN ""
        ELSE IF ~Assert(d.b = Mutate(r.opt, r.muts[i]), "expected text") THEN ""
        ELSE IF same /\ ~r.runs[i].ok THEN "the right bytes are refused: " \o r.runs[i].err
        ELSE IF ~same /\ r.runs[i].ok THEN "wrong bytes are accepted (" \o r.muts[i][1] \o "): " \o ToString(d.b) \o " for " \o ToString(r.opt)
        ELSE ""
Verdict(r) ==
    LET S == {i \in 1..Len(r.runs) : RunBad(r, i) # ""}
    IN  IF r.err # "" \/ S = {} THEN "" ELSE RunBad(r, CHOOSE i \in S : \A j \in S : i <= j)
Info(r) == IF r.err # "" THEN {"not compiled"}
           ELSE {(IF r.runs[i].ok THEN "accepted " ELSE "refused ") \o r.muts[i][1] : i \in 1..Len(r.runs)}

VARIABLES l, bad, info
Init == l = 0 /\ bad = <<>> /\ info = NoInfo
Next == /\ l < Len(Trace)
        /\ l' = l + 1
        /\ LET r == Trace[l + 1]
               v == Verdict(r)
           IN  /\ bad' = IF v = "" THEN bad ELSE Append(bad, <<r.id, v>>)
               /\ info' = Bump(info, Info(r))
        /\ (l + 1 < Len(Trace) \/ WriteVerdict(l + 1, bad', info'))
TraceSpec == Init /\ [][Next]_<<l, bad, info>>
=============================================================================
