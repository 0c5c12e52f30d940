---------------------------- MODULE HidExtract ----------------------------
(***************************************************************************)
(* Decompilation: which streams the high-level language can express, and   *)
(* when a tree means the same as a stream.                                 *)
(***************************************************************************)
EXTENDS HidTree, HutTable, FiniteSets

\* Number of logical values, if it can be a number of selectors.
Span(e) == LET d == SubW(e.lmax, e.lmin) IN IF SLt(e.lmax, e.lmin) \/ d[1] # 0 THEN -1 ELSE d[2] + 1
EvExpressible(e) ==
    CASE e.t = "open"  -> e.desig = <<>> /\ e.str = <<>> /\ ~HasDelim(e.usage)
      [] e.t = "close" -> TRUE
      [] e.t = "const" -> TRUE
      [] e.t = "arr"   -> /\ Len(e.desig) <= 1 /\ Len(e.str) <= 1 /\ ~HasDelim(e.usage)
                          /\ RunLen(e.usage) <= 1 \/ RunLen(e.usage) = Span(e)
      [] OTHER         -> ~HasDelim(e.usage)
Expressible(its) ==
    LET a == Denote(its, "main")
    IN  /\ a.bad = "" /\ a = Denote(its, "decl")
        /\ \A i \in 1..Len(a.ev) : EvExpressible(a.ev[i])

\* Named arrays have no physical range of their own, constants no usage.
Named(e) == e.t = "arr" /\ RunLen(e.usage) >= 1 /\ RunLen(e.usage) = Span(e)
Essence(m) ==
    LET s == SelectSeq(m.ev, LAMBDA e : e.t # "const")
    IN  [m EXCEPT !.ev = [i \in 1..Len(s) |-> IF Named(s[i]) THEN [s[i] EXCEPT !.pmin = Z32, !.pmax = Z32] ELSE s[i]]]
(***************************************************************************)
(* The decompiler as a machine: one step per item, a stack of open         *)
(* collections whose members are nodes [e, mem, rids] (e the visit event,  *)
(* mem the members of a collection, rids the report IDs of its fields).    *)
(* Extract(its) is the visit events of the tree it ends with.              *)
(***************************************************************************)
XNode(e, mem, rids) == [e |-> e, mem |-> mem, rids |-> rids]
XInit == [g |-> Globals0, st |-> <<>>, loc |-> HostInit("main"), off |-> NoOff,
          nest |-> <<XNode([k |-> "top"], <<>>, {})>>]

\* The declared usages as words, in order, page filled in at the main item.
RECURSIVE RunWords(_)
RunWords(runs) == IF runs = <<>> THEN <<>>
                  ELSE LET r == Head(runs) IN [i \in 1..(r[3] - r[2] + 1) |-> <<r[1], r[2] + i - 1>>] \o RunWords(Tail(runs))
XAt(l, k) == IF k <= Len(l) THEN l[k] ELSE l[Len(l)]
XUsage(us, k) == IF us = <<>> THEN <<>> ELSE XAt(us, k)

AddMember(nest, m) == [nest EXCEPT ![Len(nest)].mem = Append(@, m), ![Len(nest)].rids = @ \cup m.rids]
\* A field lands at the current offset; its alignment is given up if that is unaligned.
XAdd(x, v) ==
    LET rid == x.g[GRid][2]
        k   == OffKey(v.way, rid)
        o   == OffOf(x.off, k)
        al  == IF v.size < 8 THEN v.size ELSE 8
        v1  == IF v.k = "pad" THEN v ELSE [v EXCEPT !.align = IF al > 1 /\ o % al # 0 THEN 1 ELSE al]
        n   == IF v.k = "pad" THEN v.size ELSE v.size * v.count
    IN  [x EXCEPT !.off = OffAdd(@, k, n), !.nest = AddMember(@, XNode(v1, <<>>, {rid}))]
XVal(x, way, usage, flags, count, d, s) ==
    LET g == x.g
    IN  [k |-> "val", way |-> way, usage |-> usage, size |-> g[GSize][2], flags |-> flags,
         lmin |-> g[GLMin], lmax |-> g[GLMax],
         pmin |-> IF g[GPMin] = Z32 /\ g[GPMax] = Z32 THEN g[GLMin] ELSE g[GPMin],
         pmax |-> IF g[GPMin] = Z32 /\ g[GPMax] = Z32 THEN g[GLMax] ELSE g[GPMax],
         na |-> <<>>, nak |-> 0, unit |-> g[GUnit], exp |-> g[GExp], desig |-> d, str |-> s, count |-> count, align |-> -1]
XData(x, way, w) ==
    LET us == RunWords(Resolve(x.loc.u, x.g[GPage][2]))
        n  == x.g[GCount][2]
        z  == x.g[GSize][2]
        span == Span([lmin |-> x.g[GLMin], lmax |-> x.g[GLMax]])
        runs == Normal([i \in 1..Len(us) |-> <<us[i][1], us[i][2], us[i][2]>>])
    IN  IF FConst(w) THEN XAdd(x, [k |-> "pad", way |-> way, size |-> z * n])
        ELSE IF ~FVar(w) /\ ~FBuf(w) /\ us # <<>> /\ Len(us) = span THEN
             XAdd(x, [XVal(x, way, <<>>, w, n, WAt(x.loc.d, 1), WAt(x.loc.s, 1)) EXCEPT
                        !.na = runs, !.nak = IF Len(us) >= 2 /\ Len(runs) = 1 THEN 2 ELSE 1,
                        !.pmin = x.g[GLMin], !.pmax = <<>>])
        ELSE IF FBuf(w) THEN XAdd(x, XVal(x, way, XUsage(us, 1), w, n, WAt(x.loc.d, 1), WAt(x.loc.s, 1)))
        ELSE FoldLeft(LAMBDA a, k : XAdd(a, XVal(x, way, XUsage(us, k), w, 1, WAt(x.loc.d, k), WAt(x.loc.s, k))),
                      x, [k \in 1..n |-> k])
\* Usages of the named array type (see HutTable).
NaryUsage(u) == Known(u) /\ \E i \in 1..Len(Entry(u)[3]) : Entry(u)[3][i] = "NAry"
FoldsToValue(c) == /\ c.e.k = "coll" /\ c.e.kind = <<0, 2>> /\ c.e.usage # <<>> /\ NaryUsage(c.e.usage)
                   /\ Len(c.mem) = 1 /\ c.mem[1].e.k = "val" /\ c.mem[1].e.nak # 0 /\ c.mem[1].e.usage = <<>>
XMain(x, tag, w) ==
    CASE tag = 10 ->
         LET us == RunWords(Resolve(x.loc.u, x.g[GPage][2]))
         IN  [x EXCEPT !.nest = Append(@, XNode([k |-> "coll", kind |-> w, usage |-> XUsage(us, 1)], <<>>, {}))]
      [] tag = 12 ->
         LET c == x.nest[Len(x.nest)]
             m == IF FoldsToValue(c) THEN [c.mem[1] EXCEPT !.e.usage = c.e.usage] ELSE c
         IN  [x EXCEPT !.nest = AddMember(SubSeq(@, 1, Len(@) - 1), m)]
      [] OTHER -> XData(x, tag, w)
XStep(x, it) ==
    CASE it[1] = Global -> (CASE it[2] = 10 -> [x EXCEPT !.st = Append(@, x.g)]
                              [] it[2] = 11 -> [x EXCEPT !.g = x.st[Len(x.st)], !.st = SubSeq(@, 1, Len(@) - 1)]
                              [] OTHER -> [x EXCEPT !.g[it[2] + 1] = Val(it)])
      [] it[1] = Local  -> [x EXCEPT !.loc = LocalStep(@, it[2], Val(it))]
      [] it[1] = Main   -> [XMain(x, it[2], Val(it)) EXCEPT !.loc = LocalClear(@)]

\* Report nodes around members that belong to one report only.
XEnd == [k |-> "end"]
RECURSIVE XFlat(_), XInsert(_)
XFlat(m) == IF m.e.k \in {"val", "pad"} THEN <<m.e>>
            ELSE <<m.e>> \o FoldLeft(LAMBDA a, c : a \o XFlat(c), <<>>, m.mem) \o <<XEnd>>
XInsert(m) ==
    LET step(a, c) ==
            IF Cardinality(c.rids) = 1
            THEN LET rid == CHOOSE r \in c.rids : TRUE
                 IN  IF a.cur = rid THEN [a EXCEPT !.out = @ \o XFlat(c)]
                     ELSE [cur |-> rid, out |-> a.out \o (IF a.cur >= 0 THEN <<XEnd>> ELSE <<>>) \o <<[k |-> "rep", id |-> rid]>> \o XFlat(c)]
            ELSE [cur |-> -1, out |-> a.out \o (IF a.cur >= 0 THEN <<XEnd>> ELSE <<>>) \o XInsert(c)]
        f == FoldLeft(step, [cur |-> -1, out |-> <<>>], m.mem)
    IN  <<m.e>> \o f.out \o (IF f.cur >= 0 THEN <<XEnd>> ELSE <<>>) \o <<XEnd>>
Extract(its) == XInsert(FoldLeft(XStep, XInit, its).nest[1])

SameMeaning(es, its) == Diff(Essence(Denote(its, "main")), Essence(TreeMeaning(es)))

(***************************************************************************)
(* Named arrays of a tree, in order: direction, selectors, first value,    *)
(* size, count, flags and, for usages of the named array type, the usage.  *)
(* (An array with one usage and one logical value is one, too.)            *)
(***************************************************************************)
IsNamed(v) == v.k = "val" /\ ~FConst(v.flags)
              /\ (v.na # <<>> \/ (~FVar(v.flags) /\ ~FBuf(v.flags) /\ v.usage # <<>> /\ v.lmin = v.lmax))
NamedOf(v) == <<v.way, IF v.na # <<>> THEN Normal(v.na) ELSE URun(v.usage), v.lmin, v.size, v.count, ClearVar(v.flags),
                IF v.na # <<>> /\ v.usage # <<>> /\ NaryUsage(v.usage) THEN v.usage ELSE <<>> >>
NamedSeq(es) == LET s == SelectSeq(es, IsNamed) IN [i \in 1..Len(s) |-> NamedOf(s[i])]
\* A collection of the named array type around a lone named array is its usage.
Wrapped(es, i) == /\ i > 1 /\ i < Len(es) /\ es[i].k = "val" /\ es[i].na # <<>> /\ es[i].usage = <<>> /\ es[i - 1].k = "coll"
                  /\ es[i - 1].kind = W(2) /\ es[i - 1].usage # <<>> /\ NaryUsage(es[i - 1].usage) /\ es[i + 1].k = "end"
Collapse(es) == [i \in 1..Len(es) |-> IF Wrapped(es, i) THEN [es[i] EXCEPT !.usage = es[i - 1].usage] ELSE es[i]]
NamedDiff(es, es2) ==
    LET a == NamedSeq(Collapse(es))
        b == NamedSeq(Collapse(es2))
    IN  IF a = b THEN ""
        ELSE LET i == FirstDiff(a, b)
             IN  IF i > Len(a) THEN "extra named array" ELSE IF i > Len(b) THEN "missing named array"
                 ELSE "named array " \o ToString(a[i]) \o " became " \o ToString(b[i])
=============================================================================
