---------------------------- MODULE Trace_Named ----------------------------
(***************************************************************************)
(* C12.  r.k = "tree": a compiled tree (r.es, r.plain, r.opt), the same    *)
(* with ranges as lists and lists as ranges (r.alt), and decompiled again  *)
(* (r.es2).  r.k = "range": what a UsageRange r.lo..r.hi did as a list.    *)
(***************************************************************************)
EXTENDS HidCompile, HidExtract, TraceBase

BytesDiff(t, b, what) ==
    LET d == Decode(b)
    IN  IF d.bad # "" THEN what \o ": output bytes " \o d.bad
        ELSE LET x == Diff(t, Denote(d.items, "main"))
                 y == Diff(t, Denote(d.items, "decl"))
             IN  IF x # "" THEN what \o " (page at main item): " \o x
                 ELSE IF y # "" THEN what \o " (page at usage item): " \o y ELSE ""
AltDiff(r) ==
    LET wrong == {k \in 1..Len(r.alt) : r.alt[k].err # "" \/ r.alt[k].b # (IF r.alt[k].o = 1 THEN r.opt ELSE r.plain)}
    IN  IF wrong = {} THEN "" ELSE "a range and its list compile to different bytes" \o r.alt[CHOOSE k \in wrong : TRUE].err
TreeVerdict(r) ==
    IF r.perr # "" THEN "plain: " \o r.perr
    ELSE IF r.oerr # "" THEN "optimised: " \o r.oerr
    ELSE LET t == TreeMeaning(r.es)
             x == BytesDiff(t, r.plain, "plain")
             y == BytesDiff(t, r.opt, "optimised")
         IN  IF x # "" THEN x ELSE IF y # "" THEN y
             ELSE IF AltDiff(r) # "" THEN AltDiff(r)
             ELSE IF ~Expressible(Items(r.plain)) THEN ""
             ELSE IF r.derr # "" THEN "decompiling: " \o r.derr
             ELSE NamedDiff(r.es, r.es2)

Count(r) == IF r.hi = r.lo THEN 1 ELSE IF ULt(r.lo, r.hi) THEN SubW(r.hi, r.lo)[2] + 1 ELSE 0
Elems(r) == [i \in 1..Count(r) |-> AddW(r.lo, W(i - 1))]
\* Indexing and slicing of lists.
At(s, i) == IF i >= 0 /\ i < Len(s) THEN s[i + 1] ELSE IF i < 0 /\ Len(s) + i >= 0 THEN s[Len(s) + i + 1] ELSE <<>>
RangeVerdict(r) ==
    LET s == Elems(r)
        what == "range " \o ToString(r.lo) \o ".." \o ToString(r.hi) \o ": "
    IN  IF r.err # "" THEN what \o r.err
        ELSE IF r.n # Len(s) THEN what \o "length " \o ToString(r.n)
        ELSE IF r.iter # s THEN what \o "iteration"
        ELSE IF r.rev # Reverse(s) THEN what \o "reversed"
        ELSE IF r.true # (s # <<>>) THEN what \o "truth value"
        ELSE IF \E k \in 1..Len(r.ix) : r.at[k] # At(s, r.ix[k]) THEN what \o "element " \o ToString(r.ix[CHOOSE k \in 1..Len(r.ix) : r.at[k] # At(s, r.ix[k])])
        ELSE IF \E k \in 1..Len(r.sl) : r.slices[k] # ListSlice(s, r.sl[k][1], r.sl[k][2], r.sl[k][3]) THEN what \o "slice"
        ELSE IF \E k \in 1..Len(r.ask) : r.has[k] # (\E i \in 1..Len(s) : s[i] = r.ask[k]) THEN what \o "membership"
        ELSE ""

Verdict(r) == IF r.k = "tree" THEN TreeVerdict(r) ELSE RangeVerdict(r)
Info(r) == IF r.k = "range" THEN {"ranges"} ELSE IF NamedSeq(r.es) = <<>> THEN {"trees"} ELSE {"trees", "with_named_arrays"}

VARIABLES l, bad, info
Init == l = 0 /\ bad = <<>> /\ info = NoInfo
Next == /\ l < Len(Trace)
        /\ l' = l + 1
        /\ LET r == Trace[l + 1]
               v == Verdict(r)
           IN  /\ bad' = IF v = "" THEN bad ELSE Append(bad, <<r.id, v>>)
               /\ info' = Bump(info, Info(r))
        /\ (l + 1 < Len(Trace) \/ WriteVerdict(l + 1, bad', info'))
TraceSpec == Init /\ [][Next]_<<l, bad, info>>
=============================================================================
