---------------------------- MODULE Trace_Refuse ----------------------------
(***************************************************************************)
(* C22.  Record r: a tree r.es whose event r.at (0: none suited) has its   *)
(* attribute r.attr replaced by the number r.n, and what came of compiling *)
(* it, without (r.plain, r.perr) and with (r.opt, r.oerr) optimisation.    *)
(***************************************************************************)
EXTENDS HidRefuse, TraceBase

What(r) == r.attr \o " = " \o ToString(r.n) \o " of event " \o ToString(r.at)
MeanBad(r, b, what) ==
    LET d == Decode(b)
    IN  IF d.bad # "" THEN what \o ": " \o d.bad
        ELSE LET y == Diff(TreeMeaning(PutIn(r.es, r.at, r.attr, r.n)), Denote(d.items, "main"))
             IN  IF y # "" THEN what \o ": " \o y ELSE ""
Verdict(r) ==
    IF r.at = 0 \/ ~Applies(r.es[r.at], r.attr, r.n) THEN ""
    ELSE IF Impossible(r.es, r.at, r.attr, r.n) THEN
        IF r.perr = "" THEN What(r) \o " accepted: " \o ToString(r.plain)
        ELSE IF r.oerr = "" THEN What(r) \o " accepted when optimising: " \o ToString(r.opt)
        ELSE ""
    ELSE IF ~Possible(r.es, r.at, r.attr, r.n) THEN ""
    ELSE IF r.perr # "" THEN What(r) \o " refused: " \o r.perr
    ELSE IF Huge(r.attr, r.n) THEN
        IF ~WellFormed(r.plain) \/ Item(Carrier(r.attr)[1], Carrier(r.attr)[2], NumWord(r.n)) \notin Range(Items(r.plain)) THEN What(r) \o " is not declared" ELSE ""
    ELSE IF r.oerr # "" THEN What(r) \o " refused when optimising: " \o r.oerr
    ELSE LET y == MeanBad(r, r.plain, "plain") IN IF y # "" THEN What(r) \o " " \o y
         ELSE LET z == MeanBad(r, r.opt, "optimised") IN IF z # "" THEN What(r) \o " " \o z ELSE ""
Info(r) == IF r.at = 0 \/ ~Applies(r.es[r.at], r.attr, r.n) THEN {"not applicable"}
           ELSE IF Impossible(r.es, r.at, r.attr, r.n) THEN {"impossible", "impossible " \o r.attr}
           ELSE IF Possible(r.es, r.at, r.attr, r.n) THEN {"possible"} ELSE {"either way"}

VARIABLES l, bad, info
Init == l = 0 /\ bad = <<>> /\ info = NoInfo
Next == /\ l < Len(Trace)
        /\ l' = l + 1
        /\ LET r == Trace[l + 1]
               v == Verdict(r)
           IN  /\ bad' = IF v = "" THEN bad ELSE Append(bad, <<r.id, v>>)
               /\ info' = Bump(info, Info(r))
        /\ (l + 1 < Len(Trace) \/ WriteVerdict(l + 1, bad', info'))
TraceSpec == Init /\ [][Next]_<<l, bad, info>>
=============================================================================
