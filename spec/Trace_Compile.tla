--------------------------- MODULE Trace_Compile ---------------------------
(***************************************************************************)
(* Recorded compilations: record r has the visit events r.es of a tree and *)
(* the bytes of its compilation without (r.plain) and with (r.opt)         *)
(* optimisation, or the error raised (r.perr, r.oerr).                     *)
(* PROP selects the property decided:                                      *)
(*   C07 bit layout, C08 attributes, C09 collections and report IDs        *)
(***************************************************************************)
EXTENDS HidCompile, TraceBase

Prop == IOEnv.PROP

IsField(e) == e.t \notin {"open", "close", "const"}
Fields(m) == SelectSeq(m.ev, IsField)

\* C07: where each field lies, and how long reports are.
Layout(m) == [f |-> LET fs == Fields(m)
                    IN  [i \in 1..Len(fs) |-> <<fs[i].way, fs[i].rid, fs[i].off, fs[i].size, fs[i].cnt>>],
              len |-> m.len]
\* C08: what each field is.
AttrOf(e) == <<e.t, e.way, e.size, e.cnt, e.flags, e.usage, e.lmin, e.lmax, e.pmin, e.pmax, e.unit, e.exp, e.desig, e.str>>
AttrNames == <<"type", "direction", "size", "count", "flags", "usage", "logical minimum", "logical maximum",
               "physical minimum", "physical maximum", "unit", "unit exponent", "designator", "string">>
AttrSeq(m) == LET fs == Fields(m) IN [i \in 1..Len(fs) |-> AttrOf(fs[i])]
\* C09: the collections, and for every field its place among them and its report.
Shape(m) == LET s == SelectSeq(m.ev, LAMBDA e : e.t # "const")
            IN  [i \in 1..Len(s) |-> IF s[i].t = "open" THEN [t |-> "open", kind |-> s[i].kind, usage |-> s[i].usage]
                                     ELSE IF s[i].t = "close" THEN Close
                                     ELSE [t |-> "field", rid |-> s[i].rid]]

LayoutDiff(a, b) ==
    IF a.f # b.f THEN LET i == FirstDiff(a.f, b.f)
                      IN  IF i > Len(a.f) THEN "extra field" ELSE IF i > Len(b.f) THEN "missing field"
                          ELSE "field " \o ToString(i) \o " <<way, report, offset, size, count>> " \o ToString(a.f[i]) \o " became " \o ToString(b.f[i])
    ELSE IF a.len # b.len THEN "report lengths" ELSE ""
AttrDiff(a, b) ==
    IF a = b THEN "" ELSE
    LET i == FirstDiff(a, b)
    IN  IF i > Len(a) THEN "extra value" ELSE IF i > Len(b) THEN "missing value"
        ELSE "value " \o ToString(i) \o ": " \o AttrNames[CHOOSE k \in 1..Len(AttrNames) : a[i][k] # b[i][k] /\ \A j \in 1..(k-1) : a[i][j] = b[i][j]]
ShapeDiff(a, b) ==
    IF a = b THEN "" ELSE
    LET i == FirstDiff(a, b)
    IN  IF i > Len(a) THEN "extra event" ELSE IF i > Len(b) THEN "missing event"
        ELSE "event " \o ToString(i) \o ": " \o a[i].t \o " / " \o b[i].t

MeaningDiff(t, m) ==
    IF m.bad # "" THEN "output not well formed: " \o m.bad
    ELSE CASE Prop = "C07" -> LayoutDiff(Layout(t), Layout(m))
           [] Prop = "C08" -> AttrDiff(AttrSeq(t), AttrSeq(m))
           [] Prop = "C09" -> ShapeDiff(Shape(t), Shape(m))
           [] OTHER        -> Diff(t, m)

BytesDiff(t, b, what) ==
    LET d == Decode(b)
    IN  IF d.bad # "" THEN what \o ": output bytes " \o d.bad
        ELSE LET x == MeaningDiff(t, Denote(d.items, "main"))
             IN  IF x # "" THEN what \o " (page at main item): " \o x
                 ELSE LET y == MeaningDiff(t, Denote(d.items, "decl"))
                      IN  IF y # "" THEN what \o " (page at usage item): " \o y ELSE ""

Verdict(r) ==
    IF r.perr # "" THEN "plain: " \o r.perr
    ELSE IF r.oerr # "" THEN "optimised: " \o r.oerr
    ELSE LET t == TreeMeaning(r.es)
             x == BytesDiff(t, r.plain, "plain")
         IN  IF x # "" THEN x ELSE BytesDiff(t, r.opt, "optimised")

\* Does the code emit exactly the items of the compiler and optimiser models?
Info(r) == IF r.perr = "" /\ r.oerr = "" /\ WellFormed(r.plain) /\ WellFormed(r.opt)
              /\ LET p == Compile(r.es) IN Items(r.plain) = p /\ Items(r.opt) = Optimise(p)
           THEN {"as_model"} ELSE {"not_as_model"}

VARIABLES l, bad, info
Init == l = 0 /\ bad = <<>> /\ info = NoInfo
Next == /\ l < Len(Trace)
        /\ l' = l + 1
        /\ LET r == Trace[l + 1]
               v == Verdict(r)
           IN  /\ bad' = IF v = "" THEN bad ELSE Append(bad, <<r.id, v>>)
               /\ info' = Bump(info, Info(r))
        /\ (l + 1 < Len(Trace) \/ WriteVerdict(l + 1, bad', info'))
TraceSpec == Init /\ [][Next]_<<l, bad, info>>
=============================================================================
