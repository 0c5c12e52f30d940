----------------------------- MODULE HidCompile -----------------------------
(***************************************************************************)
(* The compiler front end: a machine that visits a tree event by event and *)
(* writes items.  It keeps the report in effect, the report to go back to, *)
(* and the bits written so far per direction and report.                   *)
(***************************************************************************)
EXTENDS HidTree, HidOpt

CG(tag, w) == Item(Global, tag, w)
CL(tag, w) == Item(Local, tag, w)
CM(tag, w) == Item(Main, tag, w)
UW(u) == <<u[1], u[2]>>

CompInit == [out |-> <<>>, nest |-> <<>>, rid |-> 0, rst |-> <<>>, size |-> NoOff]

CPut(s, x) == [s EXCEPT !.out = @ \o x]
CKey(s, way) == OffKey(way, s.rid)
\* Constant bits in front of a value, to reach its alignment.
CPad(s, way, n) ==
    IF n = 0 THEN s
    ELSE [CPut(s, <<CG(9, W(1)), CG(7, W(n)), CM(way, W(3))>>) EXCEPT !.size = OffAdd(@, CKey(s, way), n)]
CAlign(s, way, b) ==
    LET part == IF b > 1 THEN OffOf(s.size, CKey(s, way)) % b ELSE 0
    IN  CPad(s, way, IF part = 0 THEN 0 ELSE b - part)

RECURSIVE RunUsages(_)
RunUsages(runs) == IF runs = <<>> THEN <<>>
                   ELSE [i \in 1..(Head(runs)[3] - Head(runs)[2] + 1) |-> CL(0, <<Head(runs)[1], Head(runs)[2] + i - 1>>)]
                        \o RunUsages(Tail(runs))

CValItems(v) ==
    LET named == v.na # <<>>
        const == FConst(v.flags)
        flags == IF named THEN ClearVar(v.flags) ELSE v.flags
        lmax  == IF named THEN AddW(v.lmin, W(NamedLen(v) - 1)) ELSE v.lmax
        use   == IF v.usage = <<>> THEN <<>> ELSE <<CL(0, UW(v.usage))>>
        pmin  == VPMin(v, v.lmin)
        pmax  == VPMax(v, lmax)
        phys  == IF named \/ (pmin = v.lmin /\ pmax = lmax) THEN <<CG(3, Z32), CG(4, Z32)>> ELSE <<CG(3, pmin), CG(4, pmax)>>
        sel   == IF ~named THEN <<>>
                 ELSE (IF v.usage = <<>> THEN <<>> ELSE <<CM(10, W(2))>>) \o RunUsages(v.na)
        desc  == use \o phys \o sel \o <<CG(1, v.lmin), CG(2, lmax), CG(6, v.unit), CG(5, v.exp)>>
                 \o (IF v.desig = Z32 THEN <<>> ELSE <<CL(3, v.desig)>>)
                 \o (IF v.str = Z32 THEN <<>> ELSE <<CL(7, v.str)>>)
        tail  == <<CG(9, W(v.count)), CG(7, W(v.size)), CM(v.way, flags)>>
    IN  IF const THEN tail
        ELSE desc \o tail \o (IF named /\ v.usage # <<>> THEN <<CM(12, Z32)>> ELSE <<>>)

CompStep(s, e) ==
    CASE e.k = "top"  -> [s EXCEPT !.nest = Append(@, "top")]
      [] e.k = "coll" -> [CPut(s, (IF e.usage = <<>> THEN <<>> ELSE <<CL(0, UW(e.usage))>>) \o <<CM(10, e.kind)>>)
                          EXCEPT !.nest = Append(@, "coll")]
      [] e.k = "rep"  -> [CPut(s, IF e.id = 0 THEN <<>> ELSE <<CG(8, W(e.id))>>)
                          EXCEPT !.nest = Append(@, "rep"), !.rst = Append(@, s.rid), !.rid = e.id]
      [] e.k = "end"  ->
         LET t  == s.nest[Len(s.nest)]
             s1 == [s EXCEPT !.nest = Drop1(@)]
         IN  CASE t = "coll" -> CPut(s1, <<CM(12, Z32)>>)
               [] t = "rep"  -> LET r == Pops(s.rst)
                                IN  CPut([s1 EXCEPT !.rid = r, !.rst = Drop1(@)],
                                         IF r # 0 /\ r # s.rid THEN <<CG(8, W(r))>> ELSE <<>>)
               [] OTHER      -> s1
      [] e.k = "val"   -> LET s1 == CAlign(s, e.way, ValAlign(e))
                          IN  [CPut(s1, CValItems(e)) EXCEPT !.size = OffAdd(@, CKey(s1, e.way), e.size * e.count)]
      [] e.k = "pad"   -> CPad(s, e.way, e.size)
      [] e.k = "align" -> CAlign(s, e.way, e.b)

Compile(es) == FoldLeft(CompStep, CompInit, es).out
=============================================================================
