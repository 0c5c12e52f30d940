----------------------------- MODULE HidMeaning -----------------------------
(***************************************************************************)
(* What a report descriptor means to a HID host (HID 1.11 section 6.2.2):  *)
(* a machine that reads items one by one, keeps global and local state,    *)
(* and emits the collections and fields it finds.  Denote(items, rule) is  *)
(* the meaning of a stream: the events and the report lengths.             *)
(*                                                                         *)
(* rule says when a 16-bit usage gets its page: "decl" at the usage item,  *)
(* "main" at the main item that uses it.                                   *)
(***************************************************************************)
EXTENDS HidItem, TLC

(*--- global state: indexed by tag + 1 -----------------------------------*)
GPage == 1   GLMin == 2   GLMax == 3   GPMin == 4   GPMax == 5
GExp == 6    GUnit == 7   GSize == 8   GRid == 9    GCount == 10
Globals0 == <<Z32, Z32, Z32, Z32, Z32, Z32, Z32, Z32, Z32, Z32>>

NoOff == [x \in {} |-> 0]
OffKey(way, rid) == way * 65536 + rid
OffOf(off, key) == IF key \in DOMAIN off THEN off[key] ELSE 0
OffAdd(off, key, n) == (key :> (OffOf(off, key) + n)) @@ off

MaxCount == 1024

HostInit(rule) ==
    [rule |-> rule, g |-> Globals0, st |-> <<>>,
     u |-> <<>>, umin |-> <<>>, umax |-> <<>>,
     d |-> <<>>, dmin |-> <<>>, dmax |-> <<>>,
     s |-> <<>>, smin |-> <<>>, smax |-> <<>>,
     off |-> NoOff, dep |-> 0, ev |-> <<>>, bad |-> ""]

(*--- local lists: runs <<hi, lo1, lo2>>, page hi, ids lo1..lo2 ----------*)
(* hi = -1: 16-bit usage whose page is not resolved yet; hi = -2: delimiter *)
RunAppend(l, r) ==
    IF l # <<>> /\ r[1] # -2 /\ l[Len(l)][1] = r[1] /\ l[Len(l)][3] + 1 = r[2]
    THEN [l EXCEPT ![Len(l)] = <<r[1], @[2], r[3]>>]
    ELSE Append(l, r)
Normal(runs) == FoldLeft(RunAppend, <<>>, runs)
Resolve(runs, page) ==
    Normal([i \in 1..Len(runs) |-> IF runs[i][1] = -1 THEN <<page, runs[i][2], runs[i][3]>> ELSE runs[i]])
HasDelim(runs) == \E i \in 1..Len(runs) : runs[i][1] = -2
RECURSIVE RunLen(_)
RunLen(runs) == IF runs = <<>> THEN 0 ELSE Head(runs)[3] - Head(runs)[2] + 1 + RunLen(Tail(runs))
\* the k-th usage (from 1), the last one repeating
RECURSIVE RunAt(_, _)
RunAt(runs, k) ==
    LET r == runs[1]
        n == r[3] - r[2] + 1
    IN  IF k <= n THEN <<r[1], r[2] + k - 1>>
        ELSE IF Len(runs) = 1 THEN <<r[1], r[3]>>
        ELSE RunAt(Tail(runs), k - n)

UsageHi(h, w) == IF w[1] # 0 THEN w[1] ELSE IF h.rule = "decl" THEN h.g[GPage][2] ELSE -1

\* designator and string lists: plain words; 0 stands for none
WAt(l, k) == IF l = <<>> THEN Z32 ELSE IF k <= Len(l) THEN l[k] ELSE l[Len(l)]
RECURSIVE Trim(_)
Trim(l) == IF Len(l) >= 2 /\ l[Len(l)] = l[Len(l)-1] THEN Trim(SubSeq(l, 1, Len(l) - 1))
           ELSE IF l = <<Z32>> THEN <<>> ELSE l

LocalClear(h) == [h EXCEPT !.u = <<>>, !.umin = <<>>, !.umax = <<>>,
                           !.d = <<>>, !.dmin = <<>>, !.dmax = <<>>,
                           !.s = <<>>, !.smin = <<>>, !.smax = <<>>]
Fail(h, why) == IF h.bad = "" THEN [h EXCEPT !.bad = why] ELSE h

\* Closing a usage range: both ends 16-bit, or both on the same page.
AddRange(h, a, b) ==
    LET h1 == [h EXCEPT !.umin = <<>>, !.umax = <<>>]
    IN  IF (a[1] = 0) # (b[1] = 0) \/ a[1] # b[1] THEN Fail(h1, "mixed usage range")
        ELSE IF b[2] < a[2] THEN Fail(h1, "inverted usage range")
        ELSE [h1 EXCEPT !.u = RunAppend(@, <<UsageHi(h, a), a[2], b[2]>>)]
BadWordRange(a, b) == LET d == SubW(b, a) IN ULt(b, a) \/ d[1] # 0 \/ d[2] > MaxCount
WordRange(l, a, b) == IF BadWordRange(a, b) THEN l
                      ELSE l \o [i \in 1..(SubW(b, a)[2] + 1) |-> AddW(a, W(i - 1))]

LocalStep(h, tag, w) ==
    CASE tag = 0 -> [h EXCEPT !.u = RunAppend(@, <<UsageHi(h, w), w[2], w[2]>>)]
      [] tag = 1 -> IF h.umin # <<>> THEN Fail(h, "unpaired usage minimum")
                    ELSE IF h.umax # <<>> THEN AddRange(h, w, h.umax[1])
                    ELSE [h EXCEPT !.umin = <<w>>]
      [] tag = 2 -> IF h.umax # <<>> THEN Fail(h, "unpaired usage maximum")
                    ELSE IF h.umin # <<>> THEN AddRange(h, h.umin[1], w)
                    ELSE [h EXCEPT !.umax = <<w>>]
      [] tag = 3 -> [h EXCEPT !.d = Append(@, w)]
      [] tag = 4 -> IF h.dmin # <<>> THEN Fail(h, "unpaired designator minimum")
                    ELSE IF h.dmax # <<>>
                    THEN IF BadWordRange(w, h.dmax[1]) THEN Fail(h, "bad designator range")
                         ELSE [h EXCEPT !.d = WordRange(@, w, h.dmax[1]), !.dmax = <<>>]
                    ELSE [h EXCEPT !.dmin = <<w>>]
      [] tag = 5 -> IF h.dmax # <<>> THEN Fail(h, "unpaired designator maximum")
                    ELSE IF h.dmin # <<>>
                    THEN IF BadWordRange(h.dmin[1], w) THEN Fail(h, "bad designator range")
                         ELSE [h EXCEPT !.d = WordRange(@, h.dmin[1], w), !.dmin = <<>>]
                    ELSE [h EXCEPT !.dmax = <<w>>]
      [] tag = 7 -> [h EXCEPT !.s = Append(@, w)]
      [] tag = 8 -> IF h.smin # <<>> THEN Fail(h, "unpaired string minimum")
                    ELSE IF h.smax # <<>>
                    THEN IF BadWordRange(w, h.smax[1]) THEN Fail(h, "bad string range")
                         ELSE [h EXCEPT !.s = WordRange(@, w, h.smax[1]), !.smax = <<>>]
                    ELSE [h EXCEPT !.smin = <<w>>]
      [] tag = 9 -> IF h.smax # <<>> THEN Fail(h, "unpaired string maximum")
                    ELSE IF h.smin # <<>>
                    THEN IF BadWordRange(h.smin[1], w) THEN Fail(h, "bad string range")
                         ELSE [h EXCEPT !.s = WordRange(@, h.smin[1], w), !.smin = <<>>]
                    ELSE [h EXCEPT !.smax = <<w>>]
      [] tag = 10 -> [h EXCEPT !.u = Append(@, <<-2, w[2], w[2]>>)]

GlobalStep(h, tag, w) ==
    CASE tag = 10 -> [h EXCEPT !.st = Append(@, h.g)]
      [] tag = 11 -> IF h.st = <<>> THEN Fail(h, "pop of empty stack")
                     ELSE [h EXCEPT !.g = h.st[Len(h.st)], !.st = SubSeq(@, 1, Len(@) - 1)]
      [] OTHER    -> [h EXCEPT !.g[tag + 1] = w]

(*--- fields --------------------------------------------------------------*)
FConst(f) == f[2] % 2 = 1
FVar(f)   == (f[2] \div 2) % 2 = 1
FBuf(f)   == (f[2] \div 256) % 2 = 1

PMin(g) == IF g[GPMin] = Z32 /\ g[GPMax] = Z32 THEN g[GLMin] ELSE g[GPMin]
PMax(g) == IF g[GPMin] = Z32 /\ g[GPMax] = Z32 THEN g[GLMax] ELSE g[GPMax]

Dangling(h) == h.umin # <<>> \/ h.umax # <<>> \/ h.dmin # <<>> \/ h.dmax # <<>>
               \/ h.smin # <<>> \/ h.smax # <<>>

\* The usage of control k, as a run list of at most one usage; with
\* delimiters, the whole list of alternatives and the index.
UsageFor(runs, k) == IF runs = <<>> THEN <<>>
                     ELSE IF HasDelim(runs) THEN Append(runs, <<-3, k, k>>)
                     ELSE LET u == RunAt(runs, k) IN <<<<u[1], u[2], u[2]>>>>
\* designator or string of control k, as a list of at most one non-zero index
IndexFor(l, k) == LET w == WAt(l, k) IN IF w = Z32 THEN <<>> ELSE <<w>>

(* A field event.  "arr" events have the selector list as usage and one    *)
(* event per slot; "buf" is one event for the whole buffer.                *)
Field(t, way, rid, off, size, cnt, flags, usage, lmin, lmax, pmin, pmax, unit, exp, desig, str) ==
    [t |-> t, way |-> way, rid |-> rid, off |-> off, size |-> size, cnt |-> cnt, flags |-> flags,
     usage |-> usage, lmin |-> lmin, lmax |-> lmax, pmin |-> pmin, pmax |-> pmax,
     unit |-> unit, exp |-> exp, desig |-> desig, str |-> str]

DataEvents(h, way, w, runs) ==
    LET g    == h.g
        rid  == g[GRid][2]
        size == g[GSize][2]
        n    == g[GCount][2]
        o    == OffOf(h.off, OffKey(way, rid))
        one(t, k, cnt, us, de, str) ==
            Field(t, way, rid, o + (k - 1) * size, size, cnt, w, us,
                  g[GLMin], g[GLMax], PMin(g), PMax(g), g[GUnit], g[GExp], de, str)
    IN  IF FConst(w) THEN
           IF runs = <<>> THEN <<>>
           ELSE [k \in 1..n |-> one("const", k, 1, UsageFor(runs, k), IndexFor(h.d, k), IndexFor(h.s, k))]
        ELSE IF FBuf(w) THEN <<one("buf", 1, n, UsageFor(runs, 1), IndexFor(h.d, 1), IndexFor(h.s, 1))>>
        ELSE IF FVar(w) THEN
           [k \in 1..n |-> one("var", k, 1, UsageFor(runs, k), IndexFor(h.d, k), IndexFor(h.s, k))]
        ELSE [k \in 1..n |-> one("arr", k, 1, runs, Trim(h.d), Trim(h.s))]

Open(kind, usage, desig, str) == [t |-> "open", kind |-> kind, usage |-> usage, desig |-> desig, str |-> str]
Close == [t |-> "close"]

MainStep(h, tag, w) ==
    LET runs == Resolve(h.u, h.g[GPage][2])
        h1   == IF Dangling(h) THEN Fail(h, "unpaired range") ELSE h
    IN  CASE tag = 10 ->
             LocalClear([h1 EXCEPT !.dep = @ + 1,
                 !.ev = Append(@, Open(w, UsageFor(runs, 1), Trim(h.d), Trim(h.s)))])
          [] tag = 12 ->
             IF h1.dep = 0 THEN Fail(h1, "unbalanced end of collection")
             ELSE LocalClear([h1 EXCEPT !.dep = @ - 1, !.ev = Append(@, Close)])
          [] OTHER ->
             LET n == h.g[GCount]
                 z == h.g[GSize]
             IN  IF n[1] # 0 \/ n[2] > MaxCount \/ z[1] # 0 THEN Fail(h1, "huge field")
                 ELSE LocalClear([h1 EXCEPT
                        !.ev = @ \o DataEvents(h, tag, w, runs),
                        !.off = OffAdd(@, OffKey(tag, h.g[GRid][2]), n[2] * z[2])])

HostStep(h, it) ==
    IF h.bad # "" THEN h
    ELSE CASE it[1] = Global -> GlobalStep(h, it[2], Val(it))
           [] it[1] = Local  -> LocalStep(h, it[2], Val(it))
           [] it[1] = Main   -> MainStep(h, it[2], Val(it))

HostRun(items, rule) == FoldLeft(HostStep, HostInit(rule), items)
HostEnd(h) == IF h.bad # "" THEN h
              ELSE IF h.dep # 0 THEN Fail(h, "unclosed collection") ELSE h

\* The meaning: events, report lengths (0 left out), and "" or what is wrong.
Lengths(off) == LET S == {k \in DOMAIN off : off[k] # 0} IN [k \in S |-> off[k]]
Denote(items, rule) ==
    LET h == HostEnd(HostRun(items, rule))
    IN  [ev |-> h.ev, len |-> Lengths(h.off), bad |-> h.bad]

(* What is still pending at the end of a stream: local items and globals   *)
(* no main item has used.  (Pages, physical bounds and report counts only  *)
(* count once they are used.)                                              *)
PendingGlobals(g) == <<g[GLMin], g[GLMax], g[GExp], g[GUnit], g[GSize], g[GRid]>>
Pending(items) ==
    LET h == HostRun(items, "decl")
    IN  [u |-> h.u, d |-> Trim(h.d), s |-> Trim(h.s),
         open |-> <<h.umin # <<>>, h.umax # <<>>, h.dmin, h.dmax, h.smin, h.smax>>,
         g |-> PendingGlobals(h.g), st |-> [i \in 1..Len(h.st) |-> PendingGlobals(h.st[i])]]

(***************************************************************************)
(* Comparing meanings.  Diff names the first clause that differs, or "".   *)
(***************************************************************************)
FirstDiff(a, b) ==
    IF \E i \in 1..Len(a) : i > Len(b) \/ (i <= Len(b) /\ a[i] # b[i])
    THEN CHOOSE i \in 1..Len(a) : (i > Len(b) \/ a[i] # b[i]) /\ \A j \in 1..(i-1) : j <= Len(b) /\ a[j] = b[j]
    ELSE Len(a) + 1
Attrs == <<"way", "rid", "off", "size", "cnt", "flags", "usage", "lmin", "lmax", "pmin", "pmax", "unit", "exp", "desig", "str">>
EvDiff(x, y) ==
    IF x.t # y.t THEN x.t \o " became " \o y.t
    ELSE IF x.t = "close" THEN "close"
    ELSE IF x.t = "open"
    THEN IF x.kind # y.kind THEN "collection kind" ELSE IF x.usage # y.usage THEN "collection usage" ELSE "collection string/designator"
    ELSE Attrs[CHOOSE i \in 1..Len(Attrs) : x[Attrs[i]] # y[Attrs[i]]
                      /\ \A j \in 1..(i-1) : x[Attrs[j]] = y[Attrs[j]]]
Diff(a, b) ==
    IF a.bad # b.bad THEN "well-formedness: '" \o a.bad \o "' became '" \o b.bad \o "'"
    ELSE IF a.ev # b.ev THEN
         LET i == FirstDiff(a.ev, b.ev)
         IN  IF i > Len(a.ev) THEN "event " \o ToString(i) \o " added (" \o b.ev[i].t \o ")"
             ELSE IF i > Len(b.ev) THEN "event " \o ToString(i) \o " lost (" \o a.ev[i].t \o ")"
             ELSE "event " \o ToString(i) \o " differs: " \o EvDiff(a.ev[i], b.ev[i])
    ELSE IF a.len # b.len THEN "report lengths"
    ELSE ""
=============================================================================
