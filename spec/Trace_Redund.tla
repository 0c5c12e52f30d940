---------------------------- MODULE Trace_Redund ----------------------------
(***************************************************************************)
(* C06: recorded optimised compilations r.opt of trees r.es, or optimised  *)
(* conversions of streams r.its, and r.again, the result of optimising     *)
(* them once more.  Each documented redundancy is a predicate over the     *)
(* item stream.                                                            *)
(***************************************************************************)
EXTENDS HidCompile, HidLean, TraceBase

(*--- values that could share a data item --------------------------------------*)
Mergeable(v) == v.na = <<>> /\ FVar(v.flags) /\ ~FConst(v.flags) /\ ~FBuf(v.flags) /\ v.count = 1 /\ v.usage # <<>>
MKey(t, v) == <<v.way, Rid(t), v.size, v.flags, v.lmin, v.lmax, VPMin(v, v.lmin), VPMax(v, v.lmax), v.unit, v.exp, v.desig # Z32, v.str # Z32>>
\* [t: tree state, key: of the group the next value may join, n: groups]
GPInit == [t |-> TreeInit, key |-> <<>>, n |-> 0]
GPStep(s, e) ==
    LET t1 == TreeStep(s.t, e)
        gap == e.k = "val" /\ AlignTo(s.t, e.way, ValAlign(e)).off # (OffKey(e.way, Rid(s.t)) :> OffOf(s.t.off, OffKey(e.way, Rid(s.t)))) @@ s.t.off
        k  == <<MKey(s.t, e)>>
    IN  IF e.k = "val" /\ FConst(e.flags) THEN [s EXCEPT !.t = t1, !.key = <<>>]
        ELSE IF e.k = "val" THEN
            IF Mergeable(e) THEN [t |-> t1, key |-> k, n |-> IF ~gap /\ s.key = k THEN s.n ELSE s.n + 1]
            ELSE [t |-> t1, key |-> <<>>, n |-> s.n + 1]
        ELSE [s EXCEPT !.t = t1, !.key = <<>>]
Groups(es) == FoldLeft(GPStep, GPInit, es).n
DataItems(its) == Len(SelectSeq(its, LAMBDA it : IsData(it) /\ ~FConst(Val(it))))

OfTree(r) == r.es # <<>>
InDomain(its) == LET a == Denote(its, "decl") IN a.bad = "" /\ a = Denote(its, "main")
Verdict(r) ==
    IF ~OfTree(r) /\ ~InDomain(r.its) THEN ""
    ELSE IF r.oerr # "" THEN r.oerr
    ELSE LET its == Items(r.opt)
             rg == RedundantGlobals(its)
             dr == DataRedundant(its)
             ag == Items(r.again)
         IN  IF ~WellFormed(r.opt) THEN "malformed output"
             ELSE IF rg # <<>> THEN "global item sets a value already in effect: " \o ToString(rg[1])
             ELSE IF dr # <<>> THEN dr[1]
             ELSE IF ~OfTree(r) THEN ""
             ELSE IF DataItems(its) > Groups(r.es) THEN "values that differ only in usage are not merged: "
                     \o ToString(DataItems(its)) \o " data items instead of " \o ToString(Groups(r.es))
             ELSE IF r.aerr # "" THEN "optimising again: " \o r.aerr
             ELSE IF ~WellFormed(r.again) \/ Len(ag) # Len(its) \/ Len(r.again) # Len(r.opt) THEN "optimising again changes the size"
             ELSE IF Range(ag) # Range(its) THEN "optimising again changes the items"
             ELSE IF Diff(Denote(its, "main"), Denote(ag, "main")) # "" THEN "optimising again changes the meaning"
             ELSE ""
Info(r) == IF ~OfTree(r) THEN {"streams"} ELSE IF r.oerr = "" /\ DataItems(Items(r.opt)) < Len(SelectSeq(r.es, LAMBDA e : e.k = "val" /\ ~FConst(e.flags))) THEN {"merged"} ELSE {"unmerged"}

VARIABLES l, bad, info
Init == l = 0 /\ bad = <<>> /\ info = NoInfo
Next == /\ l < Len(Trace)
        /\ l' = l + 1
        /\ LET r == Trace[l + 1]
               v == Verdict(r)
           IN  /\ bad' = IF v = "" THEN bad ELSE Append(bad, <<r.id, v>>)
               /\ info' = Bump(info, Info(r))
        /\ (l + 1 < Len(Trace) \/ WriteVerdict(l + 1, bad', info'))
TraceSpec == Init /\ [][Next]_<<l, bad, info>>
=============================================================================
