----------------------------- MODULE Trace_Unit -----------------------------
(***************************************************************************)
(* C15.  r.k = "units": r.us the units asked for, r.got what each way of   *)
(* combining gave ([w, err] each), r.exps what a host finds in a compiled  *)
(* descriptor using them (plain and optimised), in its decompilation and   *)
(* in the script generated from that; "known": the unit constants.         *)
(***************************************************************************)
EXTENDS HidUnit, HidMeaning, TraceBase

Want(u) == UnitCode(u[1], u[2])
Valid(us) == SelectSeq(us, LAMBDA u : UnitValid(u[2]))
GotDiff(u, g) ==
    IF ~UnitValid(u[2]) THEN (IF \E k \in 1..Len(g) : g[k].err = "" THEN "exponents " \o ToString(u) \o " not refused" ELSE "")
    ELSE IF \E k \in 1..Len(g) : g[k].err # "" THEN "unit " \o ToString(u) \o ": " \o g[CHOOSE k \in 1..Len(g) : g[k].err # ""].err
    ELSE IF \E k \in 1..Len(g) : g[k].w # Want(u)
         THEN "unit " \o ToString(u) \o " is " \o ToString(g[CHOOSE k \in 1..Len(g) : g[k].w # Want(u)].w) \o " instead of " \o ToString(Want(u))
    ELSE ""
FieldUnits(b) == LET d == Decode(b)
                     m == Denote(d.items, "main")
                     fs == SelectSeq(m.ev, LAMBDA e : e.t \notin {"open", "close", "const"})
                 IN  IF d.bad # "" \/ m.bad # "" THEN <<"not well formed">> ELSE [i \in 1..Len(fs) |-> fs[i].unit]
TreeUnits(es) == LET vs == SelectSeq(es, LAMBDA e : e.k = "val") IN [i \in 1..Len(vs) |-> vs[i].unit]
RECURSIVE FirstGot(_, _, _)
FirstGot(us, got, i) == IF i > Len(us) THEN "" ELSE LET v == GotDiff(us[i], got[i]) IN IF v # "" THEN v ELSE FirstGot(us, got, i + 1)
UnitsVerdict(r) ==
    LET v == FirstGot(r.us, r.got, 1)
        want == [i \in 1..Len(Valid(r.us)) |-> Want(Valid(r.us)[i])]
    IN  IF v # "" THEN v
        ELSE IF r.err # "" THEN "descriptor: " \o r.err
        ELSE IF FieldUnits(r.plain) # want THEN "units of the compiled descriptor"
        ELSE IF FieldUnits(r.opt) # want THEN "units of the optimised descriptor"
        ELSE IF TreeUnits(r.es2) # want THEN "units of the decompiled descriptor"
        ELSE IF TreeUnits(r.es3) # want THEN "units of the generated script"
        ELSE ""
KnownVerdict(r) ==
    LET wrong == {n \in DOMAIN WellKnown : ~\E k \in 1..Len(r.cs) : r.cs[k] = <<n, UnitCode(WellKnown[n][1], WellKnown[n][2])>>}
    IN  IF wrong = {} THEN "" ELSE "unit constant " \o (CHOOSE n \in wrong : TRUE)
Verdict(r) == IF r.k = "units" THEN UnitsVerdict(r) ELSE IF r.err # "" THEN r.err ELSE KnownVerdict(r)
Info(r) == {}

VARIABLES l, bad, info
Init == l = 0 /\ bad = <<>> /\ info = NoInfo
Next == /\ l < Len(Trace)
        /\ l' = l + 1
        /\ LET r == Trace[l + 1]
               v == Verdict(r)
           IN  /\ bad' = IF v = "" THEN bad ELSE Append(bad, <<r.id, v>>)
               /\ info' = Bump(info, Info(r))
        /\ (l + 1 < Len(Trace) \/ WriteVerdict(l + 1, bad', info'))
TraceSpec == Init /\ [][Next]_<<l, bad, info>>
=============================================================================
