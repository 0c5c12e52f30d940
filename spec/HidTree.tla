------------------------------ MODULE HidTree ------------------------------
(***************************************************************************)
(* What a high-level descriptor tree declares.  A tree is the sequence of  *)
(* its visit events; TreeStep reads them one by one, keeping the report    *)
(* in effect and the bits placed so far in each report, and emits the same *)
(* kind of events as HidMeaning, so that meanings can be compared.         *)
(*                                                                         *)
(*   [k |-> "top"] [k |-> "coll", kind, usage] [k |-> "rep", id]           *)
(*   [k |-> "end"] closes the innermost of these                           *)
(*   [k |-> "val", way, usage, size, flags, lmin, lmax, pmin, pmax,        *)
(*    na, nak, unit, exp, desig, str, count, align]                        *)
(*   [k |-> "pad", way, size]  [k |-> "align", way, b]                     *)
(* usage, lmax, pmin, pmax are <<>> for None, align -1 for None; na is the *)
(* named array as runs <<hi, lo1, lo2>>, nak 0 none, 1 list, 2 UsageRange. *)
(***************************************************************************)
EXTENDS HidMeaning

TreeInit == [nest |-> <<>>, rid |-> <<0>>, off |-> NoOff, ev |-> <<>>, bad |-> ""]

Rid(t) == t.rid[Len(t.rid)]
RoundUp(o, b) == IF b <= 1 THEN o ELSE ((o + b - 1) \div b) * b
AlignTo(t, way, b) ==
    LET k == OffKey(way, Rid(t))
    IN  [t EXCEPT !.off = (k :> RoundUp(OffOf(t.off, k), b)) @@ @]
Skip(t, way, n) == [t EXCEPT !.off = OffAdd(@, OffKey(way, Rid(t)), n)]

ValAlign(v) == IF v.align = -1 THEN (IF v.size < 8 THEN v.size ELSE 8) ELSE v.align
NamedLen(v) == RunLen(v.na)
\* Declared physical range: none given, or both zero, is the logical range.
VNone(w) == w = <<>> \/ w = Z32
VOr0(w) == IF w = <<>> THEN Z32 ELSE w
VPMin(v, lmin) == IF VNone(v.pmin) /\ VNone(v.pmax) THEN lmin ELSE VOr0(v.pmin)
VPMax(v, lmax) == IF VNone(v.pmin) /\ VNone(v.pmax) THEN lmax ELSE VOr0(v.pmax)
ClearVar(f) == IF FVar(f) THEN <<f[1], f[2] - 2>> ELSE f
URun(u) == IF u = <<>> THEN <<>> ELSE <<<<u[1], u[2], u[2]>>>>
VDesig(w) == IF w = Z32 THEN <<>> ELSE <<w>>

PlainEvents(t, v) ==
    LET o == OffOf(t.off, OffKey(v.way, Rid(t)))
        one(ty, k, cnt, us, de, str) ==
            Field(ty, v.way, Rid(t), o + (k - 1) * v.size, v.size, cnt, v.flags, us,
                  v.lmin, v.lmax, VPMin(v, v.lmin), VPMax(v, v.lmax), v.unit, v.exp, de, str)
    IN  IF FConst(v.flags) THEN <<>>
        ELSE IF FBuf(v.flags) THEN <<one("buf", 1, v.count, URun(v.usage), VDesig(v.desig), VDesig(v.str))>>
        ELSE IF FVar(v.flags) THEN [k \in 1..v.count |-> one("var", k, 1, URun(v.usage), VDesig(v.desig), VDesig(v.str))]
        ELSE [k \in 1..v.count |->
                one("arr", k, 1, URun(v.usage),
                    VDesig(v.desig), VDesig(v.str))]

NamedEvents(t, v) ==
    LET o    == OffOf(t.off, OffKey(v.way, Rid(t)))
        lmax == AddW(v.lmin, W(NamedLen(v) - 1))
        slot(k) == Field("arr", v.way, Rid(t), o + (k - 1) * v.size, v.size, 1, ClearVar(v.flags), Normal(v.na),
                         v.lmin, lmax, v.lmin, lmax, v.unit, v.exp, VDesig(v.desig), VDesig(v.str))
        body == [k \in 1..v.count |-> slot(k)]
    IN  IF v.usage = <<>> THEN body
        ELSE <<Open(W(2), URun(v.usage), <<>>, <<>>)>> \o body \o <<Close>>

ValStep(t, v) ==
    LET t1 == AlignTo(t, v.way, ValAlign(v))
        e  == IF FConst(v.flags) THEN <<>> ELSE IF v.na = <<>> THEN PlainEvents(t1, v) ELSE NamedEvents(t1, v)
    IN  Skip([t1 EXCEPT !.ev = @ \o e], v.way, v.size * v.count)

TreeStep(t, e) ==
    IF t.bad # "" THEN t
    ELSE CASE e.k = "top"  -> [t EXCEPT !.nest = Append(@, "top")]
           [] e.k = "coll" -> [t EXCEPT !.nest = Append(@, "coll"),
                                        !.ev = Append(@, Open(e.kind, URun(e.usage), <<>>, <<>>))]
           [] e.k = "rep"  -> [t EXCEPT !.nest = Append(@, "rep"), !.rid = Append(@, e.id)]
           [] e.k = "end"  ->
              IF t.nest = <<>> THEN [t EXCEPT !.bad = "unbalanced"]
              ELSE LET top == t.nest[Len(t.nest)]
                       t1  == [t EXCEPT !.nest = SubSeq(@, 1, Len(@) - 1)]
                   IN  CASE top = "coll" -> [t1 EXCEPT !.ev = Append(@, Close)]
                         [] top = "rep"  -> [t1 EXCEPT !.rid = SubSeq(@, 1, Len(@) - 1)]
                         [] OTHER        -> t1
           [] e.k = "val"   -> ValStep(t, e)
           [] e.k = "pad"   -> Skip(t, e.way, e.size)
           [] e.k = "align" -> AlignTo(t, e.way, e.b)

TreeRun(es) == FoldLeft(TreeStep, TreeInit, es)
TreeMeaning(es) ==
    LET t == TreeRun(es)
    IN  [ev |-> t.ev, len |-> Lengths(t.off),
         bad |-> IF t.bad # "" THEN t.bad ELSE IF t.nest # <<>> THEN "unclosed" ELSE ""]
=============================================================================
