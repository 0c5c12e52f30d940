---------------------------- MODULE Trace_Stream ----------------------------
(***************************************************************************)
(* C05: recorded optimiser runs.  Record r has the input items r.its and   *)
(* r.outs: the bytes written or the error raised, and for which selections *)
(* rs of the passes.                                                       *)
(***************************************************************************)
EXTENDS HidOpt, TraceBase

InDomain(its) == LET a == Denote(its, "decl") IN a.bad = "" /\ a = Denote(its, "main")

OutDiff(m, o) ==
    LET what == "passes " \o ToString(o.rs) \o ": "
    IN  IF o.err # "" THEN what \o o.err
        ELSE LET d == Decode(o.b)
             IN  IF d.bad # "" THEN what \o "output bytes " \o d.bad
                 ELSE LET x == Diff(m, Denote(d.items, "main"))
                      IN  IF x # "" THEN what \o "(page at main item) " \o x
                          ELSE LET y == Diff(m, Denote(d.items, "decl"))
                               IN  IF y # "" THEN what \o "(page at usage item) " \o y ELSE ""
RECURSIVE FirstBad(_, _)
FirstBad(m, outs) == IF outs = <<>> THEN ""
                     ELSE LET x == OutDiff(m, Head(outs)) IN IF x # "" THEN x ELSE FirstBad(m, Tail(outs))
Verdict(r) == IF ~InDomain(r.its) THEN "" ELSE FirstBad(Denote(r.its, "main"), r.outs)
\* Binding of the pass models: does the code emit exactly the model's items?
Exact(r) == \A i \in 1..Len(r.outs) : LET o == r.outs[i] IN
                o.err = "" /\ WellFormed(o.b) /\ (\A k \in 1..Len(o.rs) : Items(o.b) = Opt(r.its, o.rs[k][1], o.rs[k][2]))
Info(r) == IF ~InDomain(r.its) THEN {"outside"} ELSE IF Exact(r) THEN {"as_model"} ELSE {"not_as_model"}

VARIABLES l, bad, info
Init == l = 0 /\ bad = <<>> /\ info = NoInfo
Next == /\ l < Len(Trace)
        /\ l' = l + 1
        /\ LET r == Trace[l + 1]
               v == Verdict(r)
           IN  /\ bad' = IF v = "" THEN bad ELSE Append(bad, <<r.id, v>>)
               /\ info' = Bump(info, Info(r))
        /\ (l + 1 < Len(Trace) \/ WriteVerdict(l + 1, bad', info'))
TraceSpec == Init /\ [][Next]_<<l, bad, info>>
=============================================================================
