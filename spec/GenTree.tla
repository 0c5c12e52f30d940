------------------------------ MODULE GenTree ------------------------------
(***************************************************************************)
(* Descriptor trees as behaviours: each step appends one visit event.      *)
(* Two ways to explore: BFS over a small Menu (every tree up to MaxEv      *)
(* events), or simulation with random attributes, where each value is      *)
(* derived from the previous one so that neighbours often agree on most    *)
(* attributes.  Complete trees are appended to the file OUT as JSON.       *)
(***************************************************************************)
EXTENDS HidCompile, HidLean, HidScript, HidExtract, HidPool, FiniteSets, Json, IOUtils, Randomization

VARIABLES es, nest, nv, prof, fin

tvars == <<es, nest, nv, prof, fin>>

OutFile == IOEnv.OUT
Emit(rec) == Serialize(ToJson(rec) \o "\n", OutFile,
                [format |-> "TXT", charset |-> "UTF-8", openOptions |-> <<"WRITE", "CREATE", "APPEND">>]).exitValue = 0

EnvNat(name, dflt) == IF name \in DOMAIN IOEnv THEN atoi(IOEnv[name]) ELSE dflt
Focus == IF "FOCUS" \in DOMAIN IOEnv THEN IOEnv.FOCUS ELSE ""
MaxEv == EnvNat("MAXEV", 12)
\* 1: long trees, some with deep nesting
Big == EnvNat("BIG", 0)

\* What is emitted: the tree, or the stream it compiles to, plain or optimised.
What == IF "EMIT" \in DOMAIN IOEnv THEN IOEnv.EMIT ELSE "tree"
EmitTree(t) == CASE What = "tree" -> Emit(t)
                 [] What = "plain" -> Emit([its |-> Compile(t)])
                 [] What = "lean" -> Emit([its |-> Optimise(Compile(t))])

R(S) == RandomElement(S)
Pick(s) == s[RandomElement(1..Len(s))]

Val0 == [k |-> "val", way |-> 8, usage |-> <<1, 48>>, size |-> 8, flags |-> <<0, 2>>,
         lmin |-> <<0, 0>>, lmax |-> <<0, 1>>, pmin |-> <<>>, pmax |-> <<>>,
         na |-> <<>>, nak |-> 0, unit |-> Z32, exp |-> Z32, desig |-> Z32, str |-> Z32,
         count |-> 1, align |-> -1]

Top == [k |-> "top"]
Coll(kind, usage) == [k |-> "coll", kind |-> kind, usage |-> usage]
Rep(id) == [k |-> "rep", id |-> id]
End == [k |-> "end"]
Pad(way, n) == [k |-> "pad", way |-> way, size |-> n]
Aln(way, b) == [k |-> "align", way |-> way, b |-> b]

(*--- random attribute pools ----------------------------------------------*)
Sizes == <<1, 1, 1, 2, 3, 4, 5, 6, 7, 8, 8, 8, 9, 10, 12, 16, 16, 24, 32, 33, 64, 255, 256, 300>>
Flags == <<<<0, 2>>, <<0, 2>>, <<0, 2>>, <<0, 6>>, <<0, 66>>, <<0, 0>>, <<0, 0>>, <<0, 258>>, <<0, 256>>,
           <<0, 1>>, <<0, 3>>, <<0, 34>>, <<0, 162>>, <<0, 30>>, <<0, 254>>, <<0, 64>>, <<0, 4>>>>
Logicals == <<<<<<0,0>>, <<0,1>>>>, <<<<0,0>>, <<0,1>>>>, <<<<0,0>>, <<0,255>>>>, <<<<0,1>>, <<0,4>>>>,
              <<Neg(127), <<0,127>>>>, <<Neg(128), <<0,127>>>>, <<Neg(32768), <<0,32767>>>>,
              <<<<0,0>>, <<0,65535>>>>, <<<<0,0>>, <<0,32767>>>>, <<<<0,0>>, <<0,0>>>>, <<<<32768,0>>, <<32767,65535>>>>,
              <<Neg(1), <<0,1>>>>, <<<<0,0>>, <<1, 34464>>>>, <<<<0,5>>, <<0,128>>>>, <<Neg(129), <<0,256>>>>>>
Physes == <<<<<<>>, <<>>>>, <<<<>>, <<>>>>, <<<<0,0>>, <<0,0>>>>, <<<<0,0>>, <<0,1>>>>, <<<<>>, <<0,100>>>>, <<Neg(100), <<>>>>,
            <<Neg(127), <<0,127>>>>, <<<<0,0>>, <<0,255>>>>, <<<<0,1>>, <<0,4>>>>, <<Neg(1000), <<0,1000>>>>, <<<<0,0>>, <<0,360>>>>,
            <<<<32768,0>>, <<32767,65535>>>>, <<<<0, 1>>, <<0, 1>>>> >>
Units == <<Z32, Z32, <<0, 17>>, <<0, 61713>>, <<0, 18>>, <<0, 20>>, <<0, 4097>>, <<1, 1>>, <<240, 53537>>, <<0, 57617>>, <<0, 20>>, <<255, 65535>>, <<256, 1>> >>
Exps == <<Z32, Z32, Neg(1), Neg(2), <<0,3>>, <<0,7>>, Neg(8), <<0,13>>, <<0, 15>> >>
Pages == <<1, 1, 9, 9, 12, 7, 8, 32, 65280, 255, 13, 10>>
Ids == <<1, 2, 3, 4, 5, 48, 49, 50, 51, 127, 128, 255, 256, 224, 0, 300, 1000, 65535, 768>>
Ways == <<8, 8, 8, 9, 11>>
Counts == <<1, 1, 1, 1, 1, 1, 1, 1, 2, 2, 3, 3, 6, 8, 20, 255, 256, 300>>
Aligns == <<-1, -1, -1, 1, 1, 8, 16, 32, 3, 5, 2, 4, 0, 64>>

(*--- now and then something out of the pool ------------------------------*)
Rare(x) == R(1..6) = 1
Word(x) == CASE R(1..4) = 1 -> <<0, R(0..255)>> [] R(1..3) = 1 -> <<0, R(0..65535)>> [] R(1..2) = 1 -> Neg(R(1..65535)) [] OTHER -> <<R(0..65535), R(0..65535)>>
Order(a, b) == IF SLt(b, a) THEN <<b, a>> ELSE <<a, b>>
\* Some behaviours draw from a few numbers only, so that attributes meet
\* equal, opposite and neighbouring values in every combination.
Tiny == IF "tiny" \in DOMAIN prof THEN prof.tiny ELSE 0
TinyNats == <<1, 2, 3, 4, 5, 7, 8, 9, 16, 17, 32, 48, 100, 127, 128, 255, 256>>
TinyWord(x) == Pick(<<Z32, W(1), W(Tiny), W(Tiny), Neg(Tiny), W(Tiny + 1), W(2 * Tiny)>>)
RandSize(x) == IF Tiny > 0 THEN Pick(<<1, 8, Tiny, Tiny, Tiny + 1>>) ELSE IF Rare(0) THEN Pick(<<0, R(1..400), R(1..400), R(1..400)>>) ELSE Pick(Sizes)
RandFlags(x) == IF Rare(0) THEN <<0, R(0..511)>> ELSE Pick(Flags)
RandLogical(x) == IF Tiny > 0 THEN Order(TinyWord(0), TinyWord(1)) ELSE IF Rare(0) THEN Order(Word(0), Word(1)) ELSE Pick(Logicals)
RandPhys(x) == IF Tiny > 0 THEN <<Pick(<<<<>>, TinyWord(0), TinyWord(1)>>), Pick(<<<<>>, TinyWord(2), TinyWord(3)>>)>> ELSE IF Rare(0) THEN <<Word(0), Word(1)>> ELSE Pick(Physes)
RandUnit(x) == IF Tiny > 0 THEN Pick(<<Z32, W(17), W(Tiny)>>) ELSE IF Rare(0) THEN <<R(0..4095), R(0..65535)>> ELSE IF Rare(1) THEN Pick(UsualUnits) ELSE Pick(Units)
RandExp(x) == IF Tiny > 0 THEN TinyWord(0) ELSE IF Rare(0) THEN (IF R(1..2) = 1 THEN Neg(R(1..8)) ELSE <<0, R(0..200)>>) ELSE Pick(Exps)
RandPage(x) == IF Tiny > 0 THEN Pick(<<1, 9, Tiny>>) ELSE IF Rare(0) THEN Pick(<<R(1..32), R(1..32), R(1..65535), 89, 144>>) ELSE Pick(Pages)
RandId(x) == IF Tiny > 0 THEN Pick(<<1, Tiny, Tiny + 1, 48>>) ELSE IF Rare(0) THEN Pick(<<R(0..255), R(0..65535)>>) ELSE Pick(Ids)
RandCount(x) == IF Tiny > 0 THEN Pick(<<1, 1, 2, 3, Tiny>>) ELSE IF Rare(0) THEN Pick(<<0, R(1..300), R(1..300)>>) ELSE Pick(Counts)
RandIndex(s) == IF Tiny > 0 THEN Pick(<<Z32, W(1), W(Tiny), W(Tiny), W(Tiny + 1)>>) ELSE IF Rare(0) THEN <<0, R(0..65535)>> ELSE Pick(s)
NextUsage(u) == IF u = <<>> \/ u[2] = 65535 THEN <<RandPage(0), RandId(0)>> ELSE <<u[1], u[2] + 1>>
RandUsage(x) == <<RandPage(0), RandId(0)>>
RandRun(x) == LET r == [p |-> RandPage(0), a |-> R(1..40), n |-> Pick(<<0, 0, 1, 2, 3, 7>>)] IN <<r.p, r.a, r.a + r.n>>
RandNa(x) == LET n == Pick(<<1, 1, 2, 3, 4>>) IN [i \in 1..n |-> RandRun(0)]

\* Change one attribute of a value.
Mutate(v, a) ==
    CASE a = 1 -> [v EXCEPT !.way = Pick(Ways)]
      [] a \in {2, 3} -> [v EXCEPT !.usage = RandUsage(0)]
      [] a = 4 -> [v EXCEPT !.size = RandSize(0)]
      [] a = 5 -> IF v.nak = 0 THEN [v EXCEPT !.flags = RandFlags(0)] ELSE [v EXCEPT !.flags = Pick(<<<<0, 2>>, <<0, 0>>, <<0, 66>>, <<0, 38>>, <<0, 128>>, <<0, R(0..255)>>, <<0, R(0..255)>> >>)]
      [] a = 6 -> LET l == RandLogical(0) IN [v EXCEPT !.lmin = l[1], !.lmax = l[2]]
      [] a = 7 -> LET l == RandPhys(0) IN [v EXCEPT !.pmin = l[1], !.pmax = l[2]]
      [] a = 8 -> [v EXCEPT !.unit = RandUnit(0)]
      [] a = 9 -> [v EXCEPT !.exp = RandExp(0)]
      [] a = 10 -> [v EXCEPT !.desig = RandIndex(<<Z32, <<0,1>>, <<0,2>>, <<0,3>>, <<0, 300>>, <<1, 1>>, <<65535, 65535>> >>)]
      [] a = 11 -> [v EXCEPT !.str = RandIndex(<<Z32, <<0,1>>, <<0,4>>, <<0,5>>, <<0, 300>>, <<1, 4>>, <<65535, 65535>> >>)]
      [] a = 12 -> [v EXCEPT !.count = RandCount(0)]
      [] a = 13 -> [v EXCEPT !.align = IF Tiny > 0 THEN Pick(<<-1, 1, 8, Tiny>>) ELSE IF R(1..4) = 1 THEN R(1..40) ELSE Pick(Aligns)]
      [] a = 14 -> [v EXCEPT !.nak = 1, !.na = RandNa(0), !.flags = <<0, 2>>, !.lmin = Pick(<<<<0,1>>, <<0,1>>, Z32, <<0,5>>, Neg(2), <<0, 250>> >>), !.usage = Pick(<<<<>>, RandUsage(0), <<12, 54>>, <<15, 37>> >>)]
      [] a = 15 -> [v EXCEPT !.nak = 2, !.na = <<RandRun(0)>>, !.flags = <<0, 2>>, !.lmin = Pick(<<<<0,1>>, <<0,1>>, Z32, <<0,5>> >>), !.usage = Pick(<<<<>>, RandUsage(0), <<12, 54>>, <<15, 37>> >>)]
      [] a = 16 -> [v EXCEPT !.nak = Pick(<<0, 0, 0, 0, 0, 1, 2>>), !.na = <<>>]
      [] a = 17 -> [v EXCEPT !.usage = <<>>]
      [] a = 18 -> [v EXCEPT !.str = IF @ = Z32 THEN <<0,4>> ELSE AddW(@, <<0,1>>)]
      [] a = 19 -> [v EXCEPT !.desig = IF @ = Z32 THEN <<0,1>> ELSE AddW(@, <<0,1>>)]
      [] a = 20 -> [v EXCEPT !.usage = NextUsage(v.usage), !.count = 1]
      [] a = 21 -> [v EXCEPT !.flags = IF v.nak # 0 THEN <<0, R(0..255)>> ELSE Pick(<<<<0, R(0..511)>>, <<0, R(0..511)>>, <<R({0, 1, 32768}), 512 + R(0..511)>> >>)]
      [] a = 22 -> [v EXCEPT !.flags = IF v.nak # 0 THEN @ ELSE <<0, 2>>, !.count = 1]
      [] a = 23 -> IF v.nak # 0 THEN v ELSE [v EXCEPT !.pmin = Pick(<<v.lmin, v.lmin, v.lmax, Z32, <<>> >>), !.pmax = Pick(<<v.lmax, v.lmax, v.lmin, Z32, <<>> >>)]
      [] a = 24 -> [v EXCEPT !.str = v.desig]
      [] OTHER -> v
Muts == <<0, 0, 1, 23, 23, 24, 2, 2, 4, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 16, 17, 18, 19, 20, 20, 20, 20, 21, 22, 22, 22>>
\* The next value: next usage, then a few random changes.
RandVal(v) ==
    LET n  == Pick(IF Tiny > 0 THEN <<0, 1, 3, 6, 9, 12>> ELSE <<0, 0, 1, 1, 1, 2, 3, 6>>)
        ms == [i \in 1..n |-> Pick(IF Focus = "named" THEN Muts \o <<14, 14, 14, 14, 15, 15, 15, 15>> ELSE Muts)]
    IN  FoldLeft(Mutate, [v EXCEPT !.usage = IF @ = <<>> THEN @ ELSE NextUsage(@)], ms)

\* A fresh value with every attribute random.
FreshVal(x) == FoldLeft(Mutate, Val0, <<1, 2, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13>>)

RandColl(x) == Coll(Pick(<<<<0,0>>, <<0,1>>, <<0,1>>, <<0,2>>, <<0,3>>, <<0,4>>, <<0,5>>, <<0,6>>, <<0,128>>, <<0,255>>, <<0, R(0..255)>> >>),
                 Pick(<<RandUsage(0), RandUsage(0), RandUsage(0), <<>>>>))

LastVal == LET S == {i \in 1..Len(es) : es[i].k = "val"}
           IN  IF S = {} THEN prof.v0 ELSE es[CHOOSE i \in S : \A j \in S : j <= i]

CurRid == LET S == {i \in 1..Len(nest) : nest[i][1] = "rep"}
          IN  IF S = {} THEN 0 ELSE nest[CHOOSE i \in S : \A j \in S : j <= i][2]
InColl == \E i \in 1..Len(nest) : nest[i][1] = "coll"

Push(e, n) == es' = Append(es, e) /\ nest' = Append(nest, n)

(*--- random walk ----------------------------------------------------------*)
\* (The profile is drawn in the first step: TLC computes initial states once.)
RandInit == es = <<>> /\ nest = <<>> /\ nv = -1 /\ fin = FALSE /\ prof = [ids |-> FALSE, len |-> 0, v0 |-> Val0, deep |-> 6, tiny |-> 0]
RandProf ==    /\ nv = -1 /\ nv' = 0 /\ UNCHANGED <<es, nest, fin>>
            /\ \E p \in {[ids |-> Pick(<<FALSE, FALSE, TRUE>>), len |-> R((IF Big = 1 THEN MaxEv \div 2 ELSE 1)..MaxEv), v0 |-> Pick(<<Val0, FreshVal(0)>>),
                          deep |-> IF Big = 1 THEN Pick(<<6, 12, 40, 70>>) ELSE 6, tiny |-> IF R(1..3) = 1 THEN Pick(TinyNats) ELSE 0]} : prof' = p
RandOpen ==
    \E r \in {[c |-> RandColl(0), w |-> R(1..10), id |-> IF prof.ids THEN Pick(<<1, 2, 3, 255, 1, 2, 3, R(1..255)>>) ELSE 0]} :
        IF nest = <<>> THEN
            IF r.w <= 3 THEN Push(Top, <<"top", 0>>)
            ELSE IF prof.ids /\ r.w = 4 THEN Push(Rep(r.id), <<"rep", r.id>>)
            ELSE Push(r.c, <<"coll", 0>>)
        ELSE IF r.w <= (IF prof.ids THEN 6 ELSE 2) THEN Push(Rep(r.id), <<"rep", r.id>>)
        ELSE IF r.w = 10 /\ ~InColl THEN Push(Top, <<"top", 0>>)
        ELSE Push(r.c, <<"coll", 0>>)
RandLeaf ==
    /\ nest' = nest
    /\ \E r \in {[w |-> R(1..100), v |-> RandVal(LastVal), f |-> FreshVal(0), way |-> Pick(Ways)]} :
        es' = Append(es, IF r.w <= 6 THEN Pad(r.way, R(1..17))
                         ELSE IF r.w <= 12 THEN Aln(r.way, Pick(<<8, 8, 16, 3, 1, 4, 32>>))
                         ELSE IF r.w <= 16 THEN r.f
                         ELSE r.v)
RandStep ==
    /\ ~fin
    /\ nv >= 0
    /\ UNCHANGED prof
    /\ IF nv < prof.len \/ nest = <<>> THEN
          /\ fin' = FALSE
          /\ nv' = nv + 1
          /\ \E w \in {R(1..100)} :
               IF nest = <<>> THEN RandOpen
               ELSE IF ~InColl \/ (prof.ids /\ CurRid = 0) THEN RandOpen
               ELSE IF w <= (IF prof.deep > 6 THEN 45 ELSE 14) /\ Len(nest) < prof.deep THEN RandOpen
               ELSE IF w <= (IF prof.deep > 6 THEN 60 ELSE 26) /\ Len(nest) > 1 THEN es' = Append(es, End) /\ nest' = SubSeq(nest, 1, Len(nest) - 1)
               ELSE RandLeaf
       ELSE /\ fin' = TRUE
            /\ nv' = nv
            /\ es' = es \o [i \in 1..Len(nest) |-> End]
            /\ nest' = <<>>
            /\ EmitTree(es')
RandNext == RandProf \/ RandStep
RandSpec == RandInit /\ [][RandNext]_tvars

(***************************************************************************)
(* Bounded exhaustive: every tree of at most MaxEv events of a menu, below *)
(* a root.  Checked on the compiler model (ModelOk) and emitted for replay *)
(* into the code.                                                          *)
(***************************************************************************)
X == <<1, 48>>
B1 == <<9, 1>>
V(u, sz) == [Val0 EXCEPT !.usage = u, !.size = sz]
MenuLayout ==
    {V(X, 1), V(X, 3), V(X, 8), [V(B1, 8) EXCEPT !.way = 9], [V(X, 16) EXCEPT !.align = 1], [V(X, 4) EXCEPT !.count = 3],
     [V(<<>>, 3) EXCEPT !.flags = <<0, 1>>], Pad(8, 3), Pad(9, 1), Aln(8, 8), Aln(9, 16)}
MenuAttr ==
    {V(X, 8), V(<<1, 49>>, 8), V(B1, 8), [V(X, 8) EXCEPT !.lmax = <<0, 255>>], [V(X, 8) EXCEPT !.lmin = Neg(1)],
     [V(X, 8) EXCEPT !.pmax = <<0, 9>>], [V(X, 8) EXCEPT !.pmin = Neg(9), !.pmax = <<0, 9>>],
     [V(X, 8) EXCEPT !.unit = <<0, 17>>], [V(X, 8) EXCEPT !.exp = Neg(2)], [V(<<1, 50>>, 8) EXCEPT !.desig = <<0, 1>>],
     [V(<<1, 51>>, 8) EXCEPT !.str = <<0, 4>>], [V(X, 8) EXCEPT !.flags = <<0, 6>>], [V(X, 8) EXCEPT !.flags = <<0, 0>>],
     [V(X, 8) EXCEPT !.count = 2], [V(X, 8) EXCEPT !.flags = <<0, 258>>, !.count = 2],
     [V(<<>>, 8) EXCEPT !.nak = 1, !.na = <<<<1, 3, 4>>, <<9, 1, 1>>>>, !.lmin = <<0, 1>>],
     [V(<<1, 57>>, 8) EXCEPT !.nak = 2, !.na = <<<<7, 4, 7>>>>, !.lmin = <<0, 1>>],
     [V(<<>>, 8) EXCEPT !.flags = <<0, 1>>]}
MenuShape ==
    {Coll(<<0, 0>>, X), Coll(<<0, 2>>, <<>>), Coll(<<0, 128>>, B1), Rep(1), Rep(2), End, V(X, 8), V(B1, 3), [V(X, 8) EXCEPT !.way = 11],
     [V(<<1, 57>>, 4) EXCEPT !.nak = 1, !.na = <<<<7, 4, 5>>>>, !.lmin = <<0, 1>>]}
MenuMerge ==
    {V(X, 1), V(<<1, 49>>, 1), V(<<1, 50>>, 1), V(B1, 1), [V(<<1, 49>>, 1) EXCEPT !.str = <<0, 4>>],
     [V(<<1, 50>>, 1) EXCEPT !.str = <<0, 5>>], [V(<<1, 49>>, 1) EXCEPT !.desig = <<0, 2>>], [V(<<1, 50>>, 1) EXCEPT !.count = 2],
     [V(<<>>, 1) EXCEPT !.flags = <<0, 3>>], Pad(8, 1), [V(<<1, 51>>, 1) EXCEPT !.lmax = <<0, 0>>], [V(X, 1) EXCEPT !.flags = <<0, 0>>],
     [V(X, 1) EXCEPT !.way = 9], Coll(<<0, 0>>, X), End}
NV(u, kind, na, lmin) == [V(u, 8) EXCEPT !.nak = kind, !.na = na, !.lmin = lmin]
MenuNamed ==
    {NV(<<>>, 1, <<<<1, 3, 4>>, <<9, 1, 1>>>>, <<0, 1>>), NV(<<>>, 2, <<<<1, 3, 4>>>>, <<0, 1>>), NV(<<1, 57>>, 1, <<<<7, 4, 6>>>>, Z32),
     NV(<<12, 54>>, 1, <<<<12, 1, 1>>, <<12, 3, 3>>>>, <<0, 1>>), NV(<<12, 54>>, 2, <<<<9, 1, 5>>>>, Neg(1)),
     NV(<<15, 37>>, 1, <<<<15, 38, 38>>>>, <<0, 1>>), NV(<<>>, 2, <<<<7, 0, 255>>>>, Z32), NV(<<>>, 1, <<<<65281, 7, 7>>>>, <<0, 5>>),
     [NV(<<>>, 2, <<<<7, 4, 6>>>>, <<0, 1>>) EXCEPT !.count = 3], [NV(<<12, 54>>, 1, <<<<9, 3, 3>>, <<9, 1, 1>>>>, <<0, 1>>) EXCEPT !.count = 2],
     [NV(<<>>, 1, <<<<1, 3, 4>>>>, <<0, 1>>) EXCEPT !.flags = <<0, 66>>], [NV(<<12, 54>>, 2, <<<<1, 3, 4>>>>, <<0, 1>>) EXCEPT !.size = 3, !.way = 9],
     [NV(<<>>, 1, <<<<1, 3, 4>>, <<1, 3, 3>>>>, <<0, 1>>) EXCEPT !.str = <<0, 4>>], [V(X, 8) EXCEPT !.flags = Z32], V(X, 8), V(B1, 1),
     Coll(<<0, 2>>, <<12, 54>>), End}
\* Every combination of bounds, given or not, for one value after another.
BoundSet == {<<>>, Z32, <<0, 1>>, Neg(1), <<0, 7>>}
MenuBounds == {[V(X, 8) EXCEPT !.lmin = a, !.lmax = b, !.pmin = c, !.pmax = d] :
                 a \in BoundSet \ {<<>>, <<0, 7>>}, b \in {Z32, <<0, 1>>, <<0, 7>>}, c \in BoundSet, d \in BoundSet}
MenuName == IF "MENU" \in DOMAIN IOEnv THEN IOEnv.MENU ELSE "layout"
Menu == CASE MenuName = "layout" -> MenuLayout
          [] MenuName = "attr"   -> MenuAttr
          [] MenuName = "shape"  -> MenuShape
          [] MenuName = "merge"  -> MenuMerge
          [] MenuName = "named"  -> MenuNamed
          [] MenuName = "bounds" -> MenuBounds
\* With report IDs (shape menu), data only inside a Report.
BfsInit == es = <<Coll(<<0, 1>>, <<1, 2>>)>> /\ nest = <<<<"coll", 0>>>> /\ nv = 0 /\ fin = FALSE /\ prof = [ids |-> FALSE]
BfsAdd(e) ==
    /\ nv < MaxEv /\ ~fin
    /\ e.k = "end" => Len(nest) > 1
    /\ (MenuName = "shape" /\ e.k = "val") => CurRid # 0
    /\ es' = Append(es, e)
    /\ nest' = CASE e.k = "coll" -> Append(nest, <<"coll", 0>>) [] e.k = "rep" -> Append(nest, <<"rep", e.id>>)
                [] e.k = "end" -> SubSeq(nest, 1, Len(nest) - 1) [] OTHER -> nest
    /\ nv' = nv + 1 /\ UNCHANGED <<prof, fin>>
BfsFinish == /\ ~fin /\ nv > 0 /\ fin' = TRUE
             /\ es' = es \o [i \in 1..Len(nest) |-> End]
             /\ nest' = <<>> /\ UNCHANGED <<nv, prof>>
             /\ EmitTree(es')
BfsNext == BfsFinish \/ \E e \in Menu : BfsAdd(e)
BfsSpec == BfsInit /\ [][BfsNext]_tvars

(***************************************************************************)
(* Deep, long and wide: one shape repeated k times, k around the powers of *)
(* two, so that no limit on depth, length or number goes unseen.           *)
(***************************************************************************)
DeepMax == EnvNat("DEEP", 130)
DeepSizes == {k \in {2, 3, 4, 5, 6, 7, 8, 9, 10, 12, 15, 16, 17, 20, 24, 31, 32, 33, 40, 50, 63, 64, 65, 80, 100, 101, 127, 128, 129, 130, 200, 254, 255, 256, 257, 258, 300, 511, 512, 513, 600} : k <= DeepMax}
Times(k, op(_)) == FoldLeft(LAMBDA acc, i : acc \o op(i), <<>>, [i \in 1..k |-> i])
DeepKinds == IF Focus = "named" THEN {"range", "list", "lists"}
             ELSE {"reps", "repscolls", "colls", "wide", "run", "gaps", "strings", "ids", "range", "list", "pads", "offsets"}
OneBit(i) == <<V(<<9, i>>, 1)>>
Deep(kind, k) ==
    CASE kind = "reps" -> Times(k, LAMBDA i : <<Rep(1 + (i % 255)), V(<<1, i>>, 8)>>) \o Times(k - 1, LAMBDA i : <<End, V(<<1, 256 + i>>, 8)>>) \o <<End>>
      [] kind = "repscolls" -> Times(k, LAMBDA i : <<Rep(255 - (i % 250)), Coll(<<0, i % 7>>, <<1, i>>)>> \o OneBit(i)) \o Times(k, LAMBDA i : OneBit(i) \o <<End, V(<<1, i>>, 3), End>>)
      [] kind = "colls" -> Times(k, LAMBDA i : <<Coll(<<0, i % 7>>, <<1, i>>), V(<<1, i>>, 8)>>) \o Times(k, LAMBDA i : <<End, V(<<1, 256 + i>>, 8)>>)
      [] kind = "wide" -> Times(k, LAMBDA i : <<Coll(<<0, i % 7>>, <<1, i>>), V(<<1, i>>, 8), End>>)
      [] kind = "run" -> Times(k, OneBit)
      [] kind = "gaps" -> Times(k, LAMBDA i : <<V(<<9, 2 * i>>, 1)>>)
      [] kind = "strings" -> Times(k, LAMBDA i : <<[OneBit(i)[1] EXCEPT !.str = <<0, i>>, !.desig = <<0, 2 * i>>]>>)
      [] kind = "ids" -> LET m == IF k < 255 THEN k ELSE 255
                         IN  Times(m, LAMBDA i : <<Rep(i), V(<<1, i>>, 1 + (i % 11)), End>>) \o Times(m, LAMBDA i : <<Rep(m + 1 - i), V(<<1, i>>, 8), [V(<<1, i>>, 3) EXCEPT !.way = 11], End>>)
      [] kind = "range" -> <<[V(<<>>, 16) EXCEPT !.nak = 2, !.na = <<<<9, 1, k>>>>, !.lmin = <<0, 1>>], V(X, 8)>>
      [] kind = "list" -> <<[V(<<12, 54>>, 16) EXCEPT !.nak = 1, !.na = [i \in 1..k |-> <<9, 2 * i, 2 * i>>], !.lmin = <<0, 1>>, !.count = 2], V(X, 8)>>
      [] kind = "lists" -> Times(k, LAMBDA i : <<[V(<<>>, 8) EXCEPT !.nak = 1, !.na = <<<<1, i, i + 1>>, <<9, i, i>>>>, !.lmin = <<0, 1>>]>>)
      [] kind = "pads" -> Times(k, LAMBDA i : <<OneBit(i)[1], Pad(8, 2), Aln(8, 8)>>)
      [] OTHER -> Times(k, LAMBDA i : <<[V(<<1, i>>, 251) EXCEPT !.count = 53], [V(<<1, i>>, 8) EXCEPT !.align = 64]>>)
DeepInit == \E kind \in DeepKinds, k \in DeepSizes :
               /\ es = <<Coll(<<0, 1>>, <<1, 2>>)>> \o Deep(kind, k) \o <<End>> /\ nv = k
               /\ nest = <<>> /\ fin = FALSE /\ prof = [ids |-> FALSE]
DeepSpec == DeepInit /\ [][~fin /\ fin' = TRUE /\ EmitTree(es) /\ UNCHANGED <<es, nest, nv, prof>>]_tvars
DeepOk == fin => TreeMeaning(es).bad = ""

(***************************************************************************)
(* Neighbours that differ in one attribute only, and there by little.      *)
(***************************************************************************)
Small(p) == p[1][1] = 0 /\ p[2][1] = 0 /\ p[1][2] \in 1..600 /\ p[2][2] \in 1..600
AkinVal(a, i, w) ==
    LET v == V(<<1, 47 + i>>, 8) IN
    CASE a = "lmin" -> [v EXCEPT !.lmin = w]
      [] a = "lmax" -> [v EXCEPT !.lmax = w]
      [] a = "pmin" -> [v EXCEPT !.pmin = w, !.pmax = <<0, 9>>]
      [] a = "pmax" -> [v EXCEPT !.pmin = Neg(3), !.pmax = w]
      [] a = "unit" -> [v EXCEPT !.unit = w]
      [] a = "exp" -> [v EXCEPT !.exp = w]
      [] a = "desig" -> [v EXCEPT !.desig = w]
      [] a = "str" -> [v EXCEPT !.str = w]
      [] a = "flags" -> [v EXCEPT !.flags = w]
      [] a = "usage" -> [v EXCEPT !.usage = w]
      [] a = "size" -> [v EXCEPT !.size = w[2]]
      [] a = "count" -> [v EXCEPT !.count = w[2]]
AkinInit == \E a \in {"lmin", "lmax", "pmin", "pmax", "unit", "exp", "desig", "str", "flags", "usage", "size", "count"} :
            \E p \in (IF a \in {"size", "count"} THEN {q \in Pairs : Small(q)} ELSE IF a = "usage" THEN {q \in Pairs : q[1][1] # 0 /\ q[2][1] # 0} ELSE Pairs) :
               /\ es = <<Coll(<<0, 1>>, <<1, 2>>), AkinVal(a, 1, p[1]), AkinVal(a, 2, p[2]), AkinVal(a, 3, p[1]), End>>
               /\ nv = 1 /\ nest = <<>> /\ fin = FALSE /\ prof = [ids |-> FALSE]
AkinSpec == AkinInit /\ [][~fin /\ fin' = TRUE /\ EmitTree(es) /\ UNCHANGED <<es, nest, nv, prof>>]_tvars

\* The compiler model, alone and followed by the optimiser model, means what the tree declares.
ModelOk == (fin /\ nv <= 20) => LET t  == TreeMeaning(es)
                      p  == Compile(es)
                      o  == Optimise(p)
                  IN  /\ \A rule \in {"main", "decl"} : Diff(t, Denote(p, rule)) = "" /\ Diff(t, Denote(o, rule)) = ""
                      /\ t.bad = ""
                      /\ Len(Optimise(o)) = Len(o) /\ Range(Optimise(o)) = Range(o)
                      /\ Decode(EncodeAll(o)).items = o
                      /\ Lean(o)
\* Decompiling the compiled tree gives every named array back.
NamedOk == fin => LET t == Extract(Compile(es)) IN NamedDiff(es, t) = ""
\* A script of the tree declares what the tree declares.
ScriptOk == fin => TreeMeaning(Rebuild(Script(es))) = TreeMeaning(es)
=============================================================================
