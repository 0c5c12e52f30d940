------------------------------- MODULE HidOpt -------------------------------
(***************************************************************************)
(* The optimiser: one transducer per pass, in pipeline order               *)
(*   70 DesignatorUniq, 60 MainMerge, 50 PhysicalMerge, 40 GlobalMerge,    *)
(*   35 StringMerge, 30 DesignatorMerge, 20 UsageMerge, 10 UsagePage       *)
(* Each pass is a machine with a state (items held back, its idea of the   *)
(* host's state) and an output; Opt composes the selected ones.            *)
(***************************************************************************)
EXTENDS HidMeaning, FiniteSets

IsMain(it) == it[1] = Main
IsG(it, tag) == it[1] = Global /\ it[2] = tag
IsL(it, tag) == it[1] = Local /\ it[2] = tag
IsPush(it) == IsG(it, 10)
IsPop(it) == IsG(it, 11)
Pops(s) == s[Len(s)]
Drop1(s) == SubSeq(s, 1, Len(s) - 1)

(*--- 70: drop a null designator that is alone for its main item -----------*)
DUInit == [pend |-> <<>>, n0 |-> 0, other |-> FALSE, out |-> <<>>]
DUStep(s, it) ==
    LET s1 == [s EXCEPT !.pend = Append(@, it)]
    IN  IF IsL(it, 3) THEN
           IF Val(it) = Z32 THEN [s1 EXCEPT !.n0 = @ + 1] ELSE [s1 EXCEPT !.other = TRUE]
        ELSE IF IsL(it, 4) \/ IsL(it, 5) THEN [s1 EXCEPT !.other = TRUE]
        ELSE IF ~IsMain(it) THEN s1
        ELSE [DUInit EXCEPT !.out = s.out \o
                (IF s.n0 = 1 /\ ~s.other THEN SelectSeq(s1.pend, LAMBDA x : ~IsL(x, 3)) ELSE s1.pend)]
DesigUniq(its) == LET s == FoldLeft(DUStep, DUInit, its) IN s.out \o s.pend

(*--- 60: merge consecutive data items --------------------------------------*)
Watched == {0, 1, 2, 3, 4, 5, 6, 7, 8}
MMInit == [before |-> <<>>, mains |-> <<>>, after |-> <<>>, bl |-> <<>>, al |-> <<>>, bc |-> 0, ac |-> 0,
           props |-> [t \in Watched |-> Z32], st |-> <<>>, out |-> <<>>]
MMFlush(s) ==
    LET pre == SelectSeq(s.before, LAMBDA x : ~IsG(x, 9))
        m   == IF s.mains = <<>> THEN <<>> ELSE <<Item(Global, 9, W(s.bc)), s.mains[1]>>
    IN  [s EXCEPT !.out = @ \o pre \o m, !.before = s.after, !.mains = <<>>, !.after = <<>>, !.bc = 0]
Distinct(q) == \A i, j \in 1..Len(q) : i # j => q[i] # q[j]
SameBag(a, b) == Len(a) = Len(b) /\ {a[i] : i \in 1..Len(a)} = {b[i] : i \in 1..Len(b)}
MMMergeable(s, it) ==
    /\ it = s.mains[1]
    /\ FVar(Val(it)) \/ FConst(Val(it))
    /\ ~FBuf(Val(it))
    /\ s.ac >= 1
    /\ Distinct(s.al) /\ Distinct(s.bl) /\ SameBag(s.al, s.bl)
    /\ \A i \in 1..Len(s.al) : s.al[i] \in {0, 3, 7}
MMStep(s, it) ==
    IF it[1] = Local THEN [s EXCEPT !.after = Append(@, it), !.al = Append(@, it[2])]
    ELSE IF it[1] = Global THEN
        LET s1 == [s EXCEPT !.after = Append(@, it)]
        IN  IF it[2] \in Watched THEN
               IF s1.props[it[2]] # Val(it) THEN MMFlush([s1 EXCEPT !.props[it[2]] = Val(it)]) ELSE s1
            ELSE IF it[2] = 9 THEN [s1 EXCEPT !.ac = it[4]]
            ELSE IF it[2] = 10 THEN MMFlush([s1 EXCEPT !.st = Append(@, <<s1.props, s1.ac>>)])
            ELSE IF s1.st = <<>> THEN s1
            ELSE MMFlush([s1 EXCEPT !.props = Pops(s1.st)[1], !.ac = Pops(s1.st)[2], !.st = Drop1(@)])
    ELSE IF ~IsData(it) THEN MMFlush([s EXCEPT !.after = Append(@, it), !.al = <<>>])
    ELSE LET s1 == IF s.mains # <<>> /\ ~MMMergeable(s, it) THEN MMFlush(s) ELSE s
             s2 == [s1 EXCEPT !.before = @ \o s1.after, !.bl = s1.al, !.bc = @ + s1.ac,
                              !.after = <<>>, !.al = <<>>, !.mains = Append(@, it)]
         IN  IF s.ac # 1 THEN MMFlush(s2) ELSE s2
MainMerge(its) == MMFlush(MMFlush(FoldLeft(MMStep, MMInit, its))).out

(*--- 50: physical bounds equal to the logical ones become 0, 0 -------------*)
PMInit == [cur |-> [t \in 1..4 |-> Z32], em |-> [t \in 3..4 |-> Z32], st |-> <<>>, pend |-> <<>>, out |-> <<>>]
PMWant(s) == IF s.cur[3] = s.cur[1] /\ s.cur[4] = s.cur[2] THEN [t \in 3..4 |-> Z32] ELSE [t \in 3..4 |-> s.cur[t]]
PMStep(s, it) ==
    IF IsMain(it) THEN
        LET w  == PMWant(s)
            px == IF ~IsData(it) THEN <<>>
                  ELSE (IF s.em[3] # w[3] THEN <<Item(Global, 3, w[3])>> ELSE <<>>)
                    \o (IF s.em[4] # w[4] THEN <<Item(Global, 4, w[4])>> ELSE <<>>)
        IN  [s EXCEPT !.out = @ \o s.pend \o px \o <<it>>, !.pend = <<>>, !.em = IF IsData(it) THEN w ELSE @]
    ELSE IF it[1] = Global /\ it[2] \in 3..4 THEN [s EXCEPT !.cur[it[2]] = Val(it)]
    ELSE LET s1 == [s EXCEPT !.pend = Append(@, it)]
         IN  IF it[1] = Global /\ it[2] \in 1..2 THEN [s1 EXCEPT !.cur[it[2]] = Val(it)]
             ELSE IF IsPush(it) THEN [s1 EXCEPT !.st = Append(@, <<s.cur, s.em>>)]
             ELSE IF IsPop(it) /\ s.st # <<>> THEN [s1 EXCEPT !.cur = Pops(s.st)[1], !.em = Pops(s.st)[2], !.st = Drop1(@)]
             ELSE s1
PhysMerge(its) == LET s == FoldLeft(PMStep, PMInit, its) IN s.out \o s.pend

(*--- 40: drop globals that change nothing -----------------------------------*)
\* Physical bounds, exponent and unit are known to start at 0.
GMInit == [g |-> [t \in 0..9 |-> IF t \in 3..6 THEN <<Z32>> ELSE <<>>], st |-> <<>>, out |-> <<>>]
GMStep(s, it) ==
    IF it[1] # Global THEN [s EXCEPT !.out = Append(@, it)]
    ELSE IF it[2] = 10 THEN [s EXCEPT !.out = Append(@, it), !.st = Append(@, s.g)]
    ELSE IF it[2] = 11 THEN IF s.st = <<>> THEN [s EXCEPT !.out = Append(@, it)]
                            ELSE [s EXCEPT !.out = Append(@, it), !.g = Pops(s.st), !.st = Drop1(@)]
    ELSE IF s.g[it[2]] = <<Val(it)>> THEN s
    ELSE [s EXCEPT !.out = Append(@, it), !.g[it[2]] = <<Val(it)>>]
GlobalMerge(its) == FoldLeft(GMStep, GMInit, its).out

(*--- 35, 30, 20: consecutive indexes become a range -------------------------*)
RMInit == [pend |-> <<>>, ok |-> TRUE, mn |-> <<>>, mx |-> <<>>, out |-> <<>>]
RMFlush(s, a, b, c) ==
    LET rest == SelectSeq(s.pend, LAMBDA x : ~(x[1] = Local /\ x[2] \in {a, b, c}))
        mn == s.mn[1]
        mx == s.mx[1]
        new == IF mn = mx THEN <<Item(Local, a, mn)>>
               ELSE IF mx = Inc(mn) THEN <<Item(Local, a, mn), Item(Local, a, mx)>>
               ELSE <<Item(Local, b, mn), Item(Local, c, mx)>>
    \* (string and designator lists that start at 0 are left alone)
    IN  [RMInit EXCEPT !.out = s.out \o (IF s.ok /\ s.mn # <<>> /\ (a = 0 \/ mn # Z32) THEN rest \o new ELSE s.pend)]
RMStep(s, it, a, b, c) ==
    LET s1 == IF ~(s.ok /\ it[1] = Local) THEN s
              ELSE IF it[2] \in {b, c, 10} THEN [s EXCEPT !.ok = FALSE]
              ELSE IF it[2] # a THEN s
              ELSE IF s.mx = <<>> THEN [s EXCEPT !.mn = <<Val(it)>>, !.mx = <<Val(it)>>]
              ELSE IF Val(it) = Inc(s.mx[1]) /\ it[4] # 0 THEN [s EXCEPT !.mx = <<Val(it)>>]
              ELSE [s EXCEPT !.ok = FALSE]
        s2 == IF IsMain(it) THEN RMFlush(s1, a, b, c) ELSE s1
    IN  [s2 EXCEPT !.pend = Append(@, it)]
RangeMerge(its, a, b, c) == LET s == RMFlush(FoldLeft(LAMBDA x, it : RMStep(x, it, a, b, c), RMInit, its), a, b, c) IN s.out

(*--- 10: usage pages ---------------------------------------------------------*)
UPInit == [page |-> 0, ps |-> <<>>, em |-> 0, es |-> <<>>, pend |-> <<>>, out |-> <<>>]
IsU(it) == it[1] = Local /\ it[2] \in {0, 1, 2}
UPFlush(s) ==
    LET pages == {s.pend[i][3] : i \in {j \in 1..Len(s.pend) : IsU(s.pend[j])}}
        split == Cardinality(pages) = 1
        page  == CHOOSE p \in pages : TRUE
        set(x) == IF x.em = page THEN x ELSE [x EXCEPT !.em = page, !.out = Append(@, Item(Global, 0, W(page)))]
        put(x, it) ==
            IF split /\ IsU(it) THEN LET y == set(x) IN [y EXCEPT !.out = Append(@, Item(Local, it[2], W(it[4])))]
            ELSE IF split /\ IsMain(it) THEN LET y == set(x) IN [y EXCEPT !.out = Append(@, it)]
            ELSE IF IsPush(it) THEN [x EXCEPT !.out = Append(@, it), !.es = Append(@, x.em)]
            ELSE IF IsPop(it) /\ x.es # <<>> THEN [x EXCEPT !.out = Append(@, it), !.em = Pops(x.es), !.es = Drop1(@)]
            ELSE [x EXCEPT !.out = Append(@, it)]
        r == FoldLeft(put, [em |-> s.em, es |-> s.es, out |-> s.out], s.pend)
    IN  [s EXCEPT !.em = r.em, !.es = r.es, !.out = r.out, !.pend = <<>>]
UPStep(s, it) ==
    IF IsG(it, 0) THEN [s EXCEPT !.page = it[4]]
    ELSE LET s1 == IF IsPush(it) THEN [s EXCEPT !.ps = Append(@, s.page)]
                   ELSE IF IsPop(it) /\ s.ps # <<>> THEN [s EXCEPT !.page = Pops(s.ps), !.ps = Drop1(@)]
                   ELSE s
             i1 == IF IsU(it) /\ it[3] = 0 THEN <<it[1], it[2], s.page, it[4]>> ELSE it
             s2 == [s1 EXCEPT !.pend = Append(@, i1)]
         IN  IF IsMain(it) THEN UPFlush(s2) ELSE s2
UsagePagePass(its) == UPFlush(FoldLeft(UPStep, UPInit, its)).out

(*--- the pipeline --------------------------------------------------------------*)
Sel(p, lo, hi) == lo < p /\ p < hi
Opt(its, lo, hi) ==
    LET a == IF Sel(70, lo, hi) THEN DesigUniq(its) ELSE its
        b == IF Sel(60, lo, hi) THEN MainMerge(a) ELSE a
        c == IF Sel(50, lo, hi) THEN PhysMerge(b) ELSE b
        d == IF Sel(40, lo, hi) THEN GlobalMerge(c) ELSE c
        e == IF Sel(35, lo, hi) THEN RangeMerge(d, 7, 8, 9) ELSE d
        f == IF Sel(30, lo, hi) THEN RangeMerge(e, 3, 4, 5) ELSE e
        g == IF Sel(20, lo, hi) THEN RangeMerge(f, 0, 1, 2) ELSE f
    IN  IF Sel(10, lo, hi) THEN UsagePagePass(g) ELSE g
Optimise(its) == Opt(its, 0, 100)
=============================================================================
