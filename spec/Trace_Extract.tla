--------------------------- MODULE Trace_Extract ---------------------------
(***************************************************************************)
(* C10: recorded decompilations.  Record r has the items r.its read and    *)
(* the visit events r.es of the tree they became, or the error r.err.      *)
(***************************************************************************)
EXTENDS HidExtract, TraceBase

Verdict(r) == IF ~Expressible(r.its) THEN ""
              ELSE IF r.err # "" THEN r.err
              ELSE SameMeaning(r.es, r.its)
Info(r) == IF Expressible(r.its) THEN {"expressible"} \cup (IF r.es = Extract(r.its) THEN {"as_model"} ELSE {"not_as_model"}) ELSE {"outside"}

VARIABLES l, bad, info
Init == l = 0 /\ bad = <<>> /\ info = NoInfo
Next == /\ l < Len(Trace)
        /\ l' = l + 1
        /\ LET r == Trace[l + 1]
               v == Verdict(r)
           IN  /\ bad' = IF v = "" THEN bad ELSE Append(bad, <<r.id, v>>)
               /\ info' = Bump(info, Info(r))
        /\ (l + 1 < Len(Trace) \/ WriteVerdict(l + 1, bad', info'))
TraceSpec == Init /\ [][Next]_<<l, bad, info>>
=============================================================================
