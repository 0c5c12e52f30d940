---------------------------- MODULE Trace_Usage ----------------------------
(***************************************************************************)
(* C13: recorded resolutions of the usage numbers r.ws (r.res: number,     *)
(* text, value of the text as an expression, page and usage numbers and    *)
(* names).  C14: recorded constants of the package (r.k = "module", "tags", *)
(* "kinds", "flags", "numbered").                                          *)
(***************************************************************************)
EXTENDS HutTable, TraceBase

Num(w) == "usage " \o ToString(w)
One(w, o) ==
    IF o.err # "" THEN Num(w) \o ": " \o o.err
    ELSE IF o.w # w THEN Num(w) \o " looked up as " \o ToString(o.w)
    ELSE IF o.ew # w THEN Num(w) \o ": its text " \o o.t \o " evaluates to " \o ToString(o.ew)
    ELSE IF o.pw # W(w[1]) \/ o.uw # W(w[2]) THEN Num(w) \o " split into " \o ToString(o.pw) \o " and " \o ToString(o.uw)
    ELSE IF o.iw # W(w[2]) THEN Num(w) \o " in its page is " \o ToString(o.iw)
    ELSE IF o.lw # w THEN Num(w) \o " looked up from its object is " \o ToString(o.lw)
    ELSE IF o.pgw # W(w[1]) THEN Num(w) \o ": page number " \o ToString(o.pgw)
    ELSE IF Known(w) THEN
         IF o.t # Dotted(w) THEN Num(w) \o " is " \o Dotted(w) \o ", not " \o o.t
         ELSE IF o.pn # Entry(w)[1] THEN Num(w) \o ": page name " \o o.pn
         ELSE IF o.un # Entry(w)[2] \/ o.in # Entry(w)[2] THEN Num(w) \o ": usage name " \o o.un \o ", " \o o.in
         ELSE ""
    ELSE IF \E p \in DOMAIN PageTitles : p # w[1] /\ o.pn \in PageTexts(p) THEN Num(w) \o ": page name " \o o.pn
    ELSE ""
RECURSIVE FirstBad(_, _, _)
FirstBad(ws, res, i) == IF i > Len(ws) THEN "" ELSE LET v == One(ws[i], res[i]) IN IF v # "" THEN v ELSE FirstBad(ws, res, i + 1)

\* C14.  r.cs: <<constant name, word, usage types, text>>
Expected(mod) == {p \in DOMAIN Hut : \E i \in DOMAIN Hut[p] : Hut[p][i][1] = mod}
ModuleDiff(r) ==
    LET want == UNION {{<<p, i>> : i \in DOMAIN Hut[p]} : p \in Expected(r.mod)}
        have == {r.cs[k] : k \in 1..Len(r.cs)}
        named(n) == {c \in have : c[1] = n}
        wrong == {pi \in want : LET e == Hut[pi[1]][pi[2]]
                                    c == named(e[2])
                                IN  c = {} \/ \E x \in c : Str(x[2][1]) # pi[1] \/ Str(x[2][2]) # pi[2] \/ ~KindsOk(x[2], x[3])}
        dup == {x \in have : \E y \in have : x # y /\ x[2] = y[2]}
    IN  IF wrong # {} THEN LET pi == CHOOSE x \in wrong : TRUE
                           IN  r.mod \o "." \o Hut[pi[1]][pi[2]][2] \o " is not usage " \o pi[2] \o " of page " \o pi[1] \o " " \o ToString(Hut[pi[1]][pi[2]][3])
        ELSE IF dup # {} THEN r.mod \o ": two constants are " \o ToString((CHOOSE x \in dup : TRUE)[2])
        ELSE ""
NumberedDiff(r) ==
    LET p == IF r.mod = "button" THEN 9 ELSE 10
        wrong == {k \in 1..Len(r.cs) : r.cs[k][2] # <<p, r.cs[k][1]>> \/ ~KindsOk(<<p, r.cs[k][1]>>, r.cs[k][3])
                                       \/ r.cs[k][4] # Dotted(<<p, r.cs[k][1]>>)}
    IN  IF wrong = {} THEN "" ELSE r.mod \o " " \o ToString(r.cs[CHOOSE k \in wrong : TRUE])
\* r.cs: <<name, kind, tag (class), tag (constant), registered name>>
TagsDiff(r) ==
    LET wrong == {n \in DOMAIN TagNames : ~\E k \in 1..Len(r.cs) : r.cs[k] = <<n, TagNames[n][1], TagNames[n][2], TagNames[n][2], n>>}
    IN  IF wrong = {} THEN "" ELSE "item " \o (CHOOSE n \in wrong : TRUE)
\* r.cs: <<name, value>>
ValuesDiff(r, names) ==
    LET wrong == {p \in names : ~\E k \in 1..Len(r.cs) : r.cs[k] = p}
    IN  IF wrong = {} THEN "" ELSE r.k \o ": " \o ToString(CHOOSE p \in wrong : TRUE)
KindPairs == {<<KindNames[i], i - 1>> : i \in 1..Len(KindNames)}
FlagPairs == {<<FlagNames[i][1], 2^(i - 1)>> : i \in 1..Len(FlagNames)} \cup {<<FlagNames[i][2], 0>> : i \in 1..Len(FlagNames)}
WayPairs == {<<"Input", 8>>, <<"Output", 9>>, <<"Feature", 11>>}

Verdict(r) ==
    CASE r.k = "lookup"   -> FirstBad(r.ws, r.res, 1)
      [] r.err # ""       -> r.k \o ": " \o r.err
      [] r.k = "module"   -> ModuleDiff(r)
      [] r.k = "numbered" -> NumberedDiff(r)
      [] r.k = "tags"     -> TagsDiff(r)
      [] r.k = "kinds"    -> ValuesDiff(r, KindPairs)
      [] r.k = "flags"    -> ValuesDiff(r, FlagPairs)
      [] r.k = "ways"     -> ValuesDiff(r, WayPairs)
Info(r) == {}

VARIABLES l, bad, info
Init == l = 0 /\ bad = <<>> /\ info = NoInfo
Next == /\ l < Len(Trace)
        /\ l' = l + 1
        /\ LET r == Trace[l + 1]
               v == Verdict(r)
           IN  /\ bad' = IF v = "" THEN bad ELSE Append(bad, <<r.id, v>>)
               /\ info' = Bump(info, Info(r))
        /\ (l + 1 < Len(Trace) \/ WriteVerdict(l + 1, bad', info'))
TraceSpec == Init /\ [][Next]_<<l, bad, info>>
=============================================================================
