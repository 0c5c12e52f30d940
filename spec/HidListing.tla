----------------------------- MODULE HidListing -----------------------------
(***************************************************************************)
(* Code listings: a machine that reads a listing line by line, keeping the *)
(* collection depth and the usage page in effect (with its stack), and     *)
(* says whether a comment describes its item.                              *)
(* Line: b bytes, i spaces before the comment's text, n item name, a its   *)
(* argument: <<>>, <<"t", text>> or <<"n", negative, magnitude>>.          *)
(***************************************************************************)
EXTENDS HidUnit, HutTable

LInit == [page |-> 0, st |-> <<>>, dep |-> 0]
LStep(s, it) ==
    CASE it[1] = Global /\ it[2] = 0  -> [s EXCEPT !.page = IF it[3] = 0 THEN it[4] ELSE -1]
      [] it[1] = Global /\ it[2] = 10 -> [s EXCEPT !.st = Append(@, s.page)]
      [] it[1] = Global /\ it[2] = 11 -> IF s.st = <<>> THEN s ELSE [s EXCEPT !.page = s.st[Len(s.st)], !.st = SubSeq(@, 1, Len(@) - 1)]
      [] it[1] = Main /\ it[2] = 10   -> [s EXCEPT !.dep = @ + 1]
      [] it[1] = Main /\ it[2] = 12   -> [s EXCEPT !.dep = @ - 1]
      [] OTHER -> s
\* A collection and its end are at the same depth.
LDepth(s, it) == IF it[1] = Main /\ it[2] = 12 THEN s.dep - 1 ELSE s.dep

\* Numbers and texts as arguments.
NumArg(w, signed) == IF signed /\ IsNeg(w) THEN <<"n", 1, NegW(w)>> ELSE <<"n", 0, w>>
TextArg(t) == <<"t", t>>
\* The set flags joined by "|", in the order of their bits.
RECURSIVE FlagList(_, _)
FlagList(w, i) == IF i > 8 THEN <<>> ELSE (IF Bit(w, i) = 1 THEN <<FlagNames[i + 1][1]>> ELSE <<>>) \o FlagList(w, i + 1)
RECURSIVE Join(_)
Join(s) == IF s = <<>> THEN "" ELSE IF Len(s) = 1 THEN s[1] ELSE s[1] \o "|" \o Join(Tail(s))
FlagArgs(w) ==
    LET l == FlagList(w, 0)
    IN  IF l # <<>> THEN {TextArg(Join(l))}
        ELSE {<<>>, <<"n", 0, w>>} \cup {TextArg(FlagNames[i][2]) : i \in 1..9}
UsageArgs(s, w) ==
    LET full == IF w[1] # 0 THEN w ELSE <<s.page, w[2]>>
    IN  IF Known(full) THEN {TextArg(Dotted(full)), TextArg(Entry(full)[2])}
        ELSE {<<"n", 0, w>>, <<"n", 0, full>>} \cup (IF InTable(full) THEN {TextArg(Dotted(full)), TextArg(Entry(full)[2])} ELSE {})
PageArgs(w) == IF w[1] # 0 \/ PageTexts(w[2]) = {} THEN {<<"n", 0, w>>}
               ELSE {TextArg(t) : t \in PageTexts(w[2])}
UnitArgs(w) == {<<"n", 0, w>>} \cup {TextArg(x) : x \in {y \in DOMAIN WellKnown : UnitCode(WellKnown[y][1], WellKnown[y][2]) = w}}
               \cup {TextArg(y) : y \in {z \in DOMAIN Systems : z # "None" /\ <<0, Systems[z]>> = w}}
KindArgs(w) == IF w[1] = 0 /\ w[2] < Len(KindNames) THEN {TextArg(KindNames[w[2] + 1])} ELSE {<<"n", 0, w>>}
\* What may stand as argument of item it in state s.
GoodArgs(s, it) ==
    LET w == Val(it)
    IN  CASE Bare(it[1], it[2])               -> {<<>>, <<"n", 0, Z32>>}
          [] IsData(it)                       -> FlagArgs(w)
          [] it[1] = Main                     -> KindArgs(w)
          [] it[1] = Global /\ it[2] = 0      -> PageArgs(w)
          [] it[1] = Global /\ it[2] = 6      -> UnitArgs(w)
          [] it[1] = Local /\ IsUsageTag(it[2]) -> UsageArgs(s, w)
          [] OTHER                            -> {NumArg(w, Signed(it[1], it[2]))}
LineBad(s, it, x) ==
    IF x.n # TagName(it[1], it[2]) THEN "a " \o TagName(it[1], it[2]) \o " is called " \o x.n
    ELSE IF x.a \notin GoodArgs(s, it) THEN x.n \o " " \o ToString(Val(it)) \o " on page " \o ToString(s.page) \o " is shown as " \o ToString(x.a)
    ELSE ""
\* Reading the lines: v tells the first comment that is wrong, ds are the
\* depths; ls and its go in parallel.
LRun(its, ls) ==
    FoldLeft(LAMBDA a, i : [v |-> IF a.v # "" THEN a.v ELSE LineBad(a.s, its[i], ls[i]), ds |-> Append(a.ds, LDepth(a.s, its[i])), s |-> LStep(a.s, its[i])],
             [v |-> "", ds |-> <<>>, s |-> LInit], [i \in 1..Len(its) |-> i])
\* Indentation grows by the same amount with each collection.
IndentOk(ds, ls) == \E base \in 0..4, step \in 1..8 : \A i \in 1..Len(ds) : ls[i].i = base + step * ds[i]
=============================================================================
