----------------------------- MODULE GenStream -----------------------------
(***************************************************************************)
(* Item streams as behaviours of a report descriptor author: each step     *)
(* adds a few items, keeping the stream well formed: collections balance,  *)
(* ranges come in pairs, the usage page does not change between a usage    *)
(* and its main item, and either every field or none has a report ID.      *)
(* Some have data items outside of collections.  Complete streams are      *)
(* appended to OUT.                                                        *)
(***************************************************************************)
EXTENDS HidOpt, HidLean, HidExtract, HidPool, Json, IOUtils, Randomization

VARIABLES its, dep, pushed, n, prof, fin
svars == <<its, dep, pushed, n, prof, fin>>

Emit(rec) == Serialize(ToJson(rec) \o "\n", IOEnv.OUT,
                [format |-> "TXT", charset |-> "UTF-8", openOptions |-> <<"WRITE", "CREATE", "APPEND">>]).exitValue = 0
EnvNat(name, dflt) == IF name \in DOMAIN IOEnv THEN atoi(IOEnv[name]) ELSE dflt
MaxSteps == EnvNat("MAXEV", 10)
\* 1: only streams the high-level language can express
Tame == EnvNat("TAME", 0)
\* 1: long streams, some with deep nesting
Big == EnvNat("BIG", 0)

R(S) == RandomElement(S)
Pick(s) == s[RandomElement(1..Len(s))]
G(tag, w) == Item(Global, tag, w)
L(tag, w) == Item(Local, tag, w)
M(tag, w) == Item(Main, tag, w)

Pages == <<1, 1, 9, 9, 12, 7, 8, 32, 65280, 13>>
Logicals == <<<<<<0,0>>, <<0,1>>>>, <<<<0,0>>, <<0,1>>>>, <<<<0,0>>, <<0,255>>>>, <<<<0,1>>, <<0,4>>>>,
              <<Neg(127), <<0,127>>>>, <<Neg(32768), <<0,32767>>>>, <<<<0,0>>, <<0,0>>>>, <<<<32768,0>>, <<32767,65535>>>>,
              <<<<0,0>>, <<0,65535>>>>, <<Neg(129), <<0,200>>>>, <<<<0,0>>, <<0,2>>>>, <<<<0,1>>, <<0,3>>>>>>
Physes == <<<<Z32, Z32>>, <<Z32, Z32>>, <<<<0,0>>, <<0,1>>>>, <<Neg(127), <<0,127>>>>, <<<<0,0>>, <<0,255>>>>, <<<<0,1>>, <<0,4>>>>,
            <<Neg(1000), <<0,1000>>>>, <<<<0,0>>, <<0,360>>>> >>
Units == <<Z32, Z32, <<0, 17>>, <<0, 61713>>, <<0, 18>>, <<240, 53537>> >>
Exps == <<Z32, Z32, Neg(1), Neg(2), <<0,3>>, <<0,13>> >>
Sizes == <<1, 1, 1, 2, 8, 8, 8, 3, 4, 5, 6, 7, 9, 16, 32, 12, 24, 33, 64, 255, 256, 300>>
Counts == <<1, 1, 1, 1, 1, 2, 2, 3, 4, 6, 8, 40>>
Flags == <<<<0,2>>, <<0,2>>, <<0,2>>, <<0,2>>, <<0,6>>, <<0,66>>, <<0,0>>, <<0,0>>, <<0,0>>, <<0,3>>, <<0,1>>, <<0,258>>, <<0,256>>, <<0,64>>, <<0,34>> >>

\* Now and then something out of the pool.
Rare(x) == R(1..6) = 1
Word(x) == CASE R(1..4) = 1 -> <<0, R(0..255)>> [] R(1..3) = 1 -> <<0, R(0..65535)>> [] R(1..2) = 1 -> Neg(R(1..65535)) [] OTHER -> <<R(0..65535), R(0..65535)>>
Order(a, b) == IF SLt(b, a) THEN <<b, a>> ELSE <<a, b>>
\* Some behaviours draw from a few numbers only, so that globals and indexes
\* meet equal, opposite and neighbouring values in every combination.
Tiny == IF "tiny" \in DOMAIN prof THEN prof.tiny ELSE 0
TinyNats == <<1, 2, 3, 4, 5, 7, 8, 9, 16, 17, 32, 48, 60>>
TinyWord(x) == Pick(<<Z32, W(1), W(Tiny), W(Tiny), Neg(Tiny), W(Tiny + 1), W(2 * Tiny)>>)
RandLogical(x) == IF Tiny > 0 THEN Order(TinyWord(0), TinyWord(1)) ELSE IF Rare(0) THEN Order(Word(0), Word(1)) ELSE Pick(Logicals)
RandPhys(x) == IF Tiny > 0 THEN <<TinyWord(0), TinyWord(1)>> ELSE IF Rare(0) THEN <<Word(0), Word(1)>> ELSE Pick(Physes)
RandUnit(x) == IF Tiny > 0 THEN Pick(<<Z32, W(17), W(Tiny)>>) ELSE IF Rare(0) THEN <<R(0..4095), R(0..65535)>> ELSE IF Rare(1) THEN Pick(UsualUnits) ELSE Pick(Units)
RandExp(x) == IF Tiny > 0 THEN TinyWord(0) ELSE IF Rare(0) THEN (IF R(1..2) = 1 THEN Neg(R(1..8)) ELSE <<0, R(0..200)>>) ELSE Pick(Exps)
RandSize(x) == IF Tiny > 0 THEN Pick(<<1, 8, Tiny, Tiny, Tiny + 1>>) ELSE IF Rare(0) THEN Pick(<<0, R(1..400), R(1..400), R(1..400)>>) ELSE Pick(Sizes)
RandCount(x) == IF Tiny > 0 THEN Pick(<<1, 1, 2, 3, Tiny>>) ELSE IF Rare(0) THEN Pick(<<0, R(1..70), R(1..70)>>) ELSE Pick(Counts)
RandPage(x) == IF Tiny > 0 THEN Pick(<<1, 9, Tiny>>) ELSE IF Rare(0) THEN Pick(<<R(1..32), R(1..32), R(1..65535), 89, 144>>) ELSE Pick(Pages)
RandFlags(x) == IF Rare(0) THEN <<0, R(0..511)>> ELSE Pick(Flags)

\* A few items that set globals, together or one of a pair.
RandGlobals(x) ==
    LET k == R(1..16)
        l == RandLogical(0)
        p == RandPhys(0)
    IN  CASE k <= 2 -> <<G(1, l[1]), G(2, l[2])>>
          [] k = 3 -> <<G(2, l[2]), G(1, l[1])>>
          [] k = 4 -> <<G(1, l[1])>>
          [] k = 5 -> <<G(2, l[2])>>
          [] k \in 6..7 -> <<G(3, p[1]), G(4, p[2])>>
          [] k = 8 -> <<G(3, p[1])>>
          [] k = 9 -> <<G(4, p[2])>>
          [] k = 10 -> <<G(6, RandUnit(0))>>
          [] k = 11 -> <<G(5, RandExp(0))>>
          [] k = 12 -> <<G(7, W(RandSize(0)))>>
          [] k \in 13..14 -> <<G(9, W(RandCount(0)))>>
          [] k = 15 -> IF prof.ids THEN <<G(8, W(IF R(1..6) = 1 THEN R(1..255) ELSE R(1..3)))>> ELSE <<G(9, W(1))>>
          [] OTHER -> <<G(3, Z32), G(4, Z32)>>

PageItem(x) == G(0, W(RandPage(0)))

FirstId(x) == IF Tiny > 0 THEN Pick(<<1, Tiny, Tiny + 1, 48>>) ELSE LET k == R(1..20) IN IF k = 1 THEN 0 ELSE IF k = 2 THEN Pick(<<224, 250, 254, 255, 1000, 32760, 65000>>) ELSE IF k = 3 THEN R(0..65000) ELSE R(1..50)
\* Usages of a data item.  b is the first id.
RandUsages(b) ==
    LET k == R(1..20)
        e == <<RandPage(0), b>>
        m == R(1..4)
    IN  CASE k <= 3 -> <<>>
          [] k <= 9 -> <<L(0, W(b))>>
          [] k <= 11 -> LET q == IF R(1..10) = 1 THEN Pick(<<R(5..40), R(250..300)>>) ELSE m IN [i \in 1..q |-> L(0, W(b + i - 1))]
          [] k <= 13 -> <<L(1, W(b)), L(2, W(b + m))>>
          [] k = 14 -> <<L(2, W(b + m)), L(1, W(b))>>
          [] k = 15 -> <<L(0, W(b)), L(1, W(b + 5)), L(2, W(b + 5 + m))>>
          [] k = 16 -> <<L(1, W(b)), L(2, W(b + m)), L(0, W(b + m + 3)), L(1, W(b + 20)), L(2, W(b + 22))>>
          [] k = 17 -> <<L(0, e)>>
          [] k = 18 -> <<L(1, e), L(2, <<e[1], b + m>>)>>
          [] k = 19 -> <<L(0, W(b)), L(0, W(b + 1)), L(0, W(b + 2)), L(0, W(b + 7))>>
          [] OTHER -> IF Tame = 1 THEN <<L(0, W(b))>>
                      ELSE <<L(10, W(1)), L(0, W(b)), L(0, W(b + 1)), L(0, W(b + 2)), L(10, W(0))>>

\* Designators (t = 3) or strings (t = 7).
RandIndexes(t) ==
    LET k == R(1..24)
        b == IF Tiny > 0 THEN Pick(<<0, 1, Tiny, Tiny + 1>>) ELSE IF R(1..12) = 1 THEN R(0..60000) ELSE R(0..4)
        m == R(1..3)
    IN  CASE k <= 13 -> <<>>
          [] k <= 16 -> <<L(t, W(b))>>
          [] k <= 18 -> [i \in 1..m |-> L(t, W(b + i - 1))]
          [] k <= 19 -> <<L(t, W(0)), L(t, W(5))>>
          [] k <= 20 -> <<L(t, W(5)), L(t, W(0))>>
          [] k <= 22 -> <<L(t + 1, W(b)), L(t + 2, W(b + m))>>
          [] k = 23 -> <<L(t, W(0)), L(t + 1, W(b)), L(t + 2, W(b + m))>>
          [] OTHER -> <<L(t, W(7)), L(t, W(7))>>

\* Interleave three parts in a random order, with a non-page global in between,
\* or with the globals saved and restored around some of them.
Weave(a, b, c, g) ==
    LET k == R(1..11)
        in == <<G(10, Z32)>>
        out == <<G(11, Z32)>>
    IN  CASE k <= 2 -> a \o b \o c
          [] k = 3 -> c \o b \o a
          [] k = 4 -> a \o g \o b \o c
          [] k = 5 -> b \o g \o a \o c
          [] k = 6 -> a \o b \o g \o c
          [] k = 7 -> b \o a \o c
          [] k = 9 -> in \o a \o out \o b \o c
          [] k = 10 -> b \o in \o g \o a \o out \o c
          [] k = 11 -> a \o in \o g \o b \o c \o out
          [] OTHER -> c \o a \o g \o b

RandData(b) ==
    Weave(RandUsages(b), RandIndexes(3), RandIndexes(7), RandGlobals(0)) \o <<M(Pick(<<8, 8, 8, 9, 11>>), RandFlags(0))>>
\* A run of single-usage variables, as compilers emit: the food of merging.
RandRunOfVars(b) ==
    LET m == R(2..4)
        s == Pick(<<0, 0, 1, 2>>)
        f == IF Rare(0) THEN RandFlags(0) ELSE Pick(<<<<0,2>>, <<0,2>>, <<0,6>>, <<0,0>>, <<0, 3>>, <<0,258>> >>)
        x == R(1..8)
        y == RandGlobals(0)
        g == Pick(<<<<>>, <<>>, <<G(9, W(1))>>>>)
    IN  FoldLeft(LAMBDA acc, i : acc \o g \o <<L(0, W(b + i))>>
                     \o (CASE s = 0 -> <<>> [] s = 1 -> <<L(7, W(3 + i))>> [] OTHER -> <<L(3, W(i))>>)
                     \o <<M(8, f)>> \o (IF i = x THEN y ELSE <<>>), <<>>, [i \in 1..m |-> i])

\* An array with one usage per logical value, perhaps in a collection of a
\* named array usage (consumer FunctionButtons, pid EffectType) or not quite.
NaryUsages == <<<<12, 54>>, <<15, 37>>, <<12, 54>>, <<1, 48>>, <<11, 6>> >>
ArraySetup(cnt) == LET lo == Pick(<<0, 1, 1, 5, 250>>) IN <<G(1, W(lo)), G(2, W(lo + cnt - 1))>>
ArrayUsages(b, cnt) ==
    LET k == R(1..4)
        p == Pick(Pages)
    IN  CASE k = 1 \/ cnt = 1 -> [i \in 1..cnt |-> L(0, W(b + i - 1))]
          [] k = 2 -> <<L(1, W(b)), L(2, W(b + cnt - 1))>>
          [] k = 3 -> [i \in 1..cnt |-> L(0, <<Pick(Pages), b + i * i>>)]
          [] OTHER -> <<L(1, <<p, b>>), L(2, <<p, b + cnt - 1>>)>>
ArrayFlags == <<<<0,0>>, <<0,0>>, <<0,0>>, <<0,64>>, <<0,4>>, <<0,32>> >>
RandArray(b) ==
    LET cnt == Pick(<<1, 2, 3, 4, 9>>)
        f == IF R(1..8) = 1 THEN Pick(Flags) ELSE Pick(ArrayFlags)
        s == Pick(<<<<>>, <<>>, <<>>, <<L(7, W(4))>>, <<L(3, W(2))>> >>)
    IN  ArraySetup(cnt) \o <<G(9, W(Pick(<<1, 1, 1, 2, 3>>)))>> \o ArrayUsages(b, cnt) \o s \o <<M(Pick(<<8, 8, 9, 11>>), f)>>
RandNamed(b) ==
    LET k == R(1..10)
        u == Pick(NaryUsages)
        open == <<L(0, u), M(10, IF k = 1 THEN <<0,4>> ELSE IF k = 2 THEN <<0,0>> ELSE <<0,2>>)>>
        close == <<M(12, Z32)>>
    IN  CASE k <= 5 -> open \o RandArray(b) \o close
          [] k = 6 -> open \o RandArray(b) \o RandArray(b + 3) \o close
          [] k = 7 -> open \o open \o RandArray(b) \o close \o close
          [] k = 8 -> open \o close
          [] k = 9 -> open \o RandArray(b) \o <<M(8, <<0,3>>)>> \o close
          [] OTHER -> RandArray(b)

StartItems(x) ==
    LET l == RandLogical(0)
    IN  <<PageItem(0)>> \o (IF prof.ids THEN <<G(8, W(R(1..3)))>> ELSE <<>>) \o
        <<G(1, l[1]), G(2, l[2]), G(7, W(RandSize(0))), G(9, W(RandCount(0)))>>

OpenItems(x) ==
    LET k == R(1..10)
        u == CASE k = 1 -> <<>> [] k = 2 -> <<L(0, <<Pick(Pages), R(1..60)>>)>> [] OTHER -> <<L(0, W(R(1..60)))>>
        d == IF k = 3 /\ Tame = 0 THEN <<L(7, W(R(0..4)))>> ELSE IF k = 4 /\ Tame = 0 THEN <<L(3, W(R(0..4)))>> ELSE <<>>
    IN  (IF k \in 5..7 THEN <<PageItem(0)>> ELSE <<>>) \o u \o d
        \o <<M(10, Pick(<<<<0,0>>, <<0,1>>, <<0,1>>, <<0,2>>, <<0,2>>, <<0,4>>, <<0,128>>, <<0, R(0..255)>> >>))>>

\* Pass sub-ranges Optimizer.new(stream, min, max): the whole and two others.
Bounds == <<0, 15, 25, 32, 37, 45, 55, 65, 100>>
RandRange(x) == LET i == R(1..8) j == R(1..8)
                IN  IF i <= j THEN <<Bounds[i], Bounds[j + 1]>> ELSE <<Bounds[j], Bounds[i + 1]>>

RandInit == its = <<>> /\ dep = 0 /\ pushed = 0 /\ n = -1 /\ fin = FALSE /\ prof = [ids |-> FALSE, len |-> 0, deep |-> 4, bare |-> FALSE, tiny |-> 0]
RandProf == /\ n = -1 /\ n' = 0 /\ UNCHANGED <<its, dep, pushed, fin>>
            /\ \E p \in {[ids |-> Pick(<<FALSE, TRUE>>), len |-> R((IF Big = 1 THEN MaxSteps \div 2 ELSE 2)..MaxSteps),
                          deep |-> IF Big = 1 THEN Pick(<<4, 12, 40, 70>>) ELSE 4, bare |-> R(1..8) = 1, tiny |-> IF R(1..3) = 1 THEN Pick(TinyNats) ELSE 0]} : prof' = p
Add(x) == its' = its \o x
RandStep ==
    /\ ~fin /\ n >= 0 /\ UNCHANGED prof
    /\ IF n = 0 THEN Add(StartItems(0)) /\ n' = 1 /\ UNCHANGED <<dep, pushed, fin>>
       ELSE IF n < prof.len \/ (dep = 0 /\ ~prof.bare) THEN
          /\ n' = n + 1 /\ fin' = FALSE
          /\ \E k \in {R(1..100)} :
             IF (dep = 0 /\ ~prof.bare) \/ (k <= (IF prof.deep > 4 THEN 45 ELSE 10) /\ dep < prof.deep) THEN Add(OpenItems(0)) /\ dep' = dep + 1 /\ UNCHANGED pushed
             ELSE IF dep > 0 /\ (k <= 18 \/ (prof.deep > 4 /\ k <= 60)) THEN Add(<<M(12, Z32)>>) /\ dep' = dep - 1 /\ UNCHANGED pushed
             ELSE IF k <= 26 THEN Add(<<G(10, Z32)>>) /\ pushed' = pushed + 1 /\ UNCHANGED dep
             ELSE IF k <= 40 /\ pushed > 0 THEN Add(<<G(11, Z32)>>) /\ pushed' = pushed - 1 /\ UNCHANGED dep
             ELSE IF k <= 45 THEN Add(<<PageItem(0)>>) /\ UNCHANGED <<dep, pushed>>
             ELSE IF k <= 58 THEN Add(RandGlobals(0)) /\ UNCHANGED <<dep, pushed>>
             ELSE IF k <= 66 THEN Add(RandNamed(FirstId(0))) /\ UNCHANGED <<dep, pushed>>
             ELSE IF k <= 79 THEN Add(RandRunOfVars(FirstId(0))) /\ UNCHANGED <<dep, pushed>>
             ELSE Add(RandData(FirstId(0))) /\ UNCHANGED <<dep, pushed>>
       ELSE /\ its' = its \o [i \in 1..dep |-> M(12, Z32)]
            /\ dep' = 0 /\ fin' = TRUE /\ UNCHANGED <<n, pushed>>
            /\ Emit([its |-> its', rs |-> <<<<0, 100>>, RandRange(0), RandRange(1), RandRange(2)>>])
RandNext == RandProf \/ RandStep
RandSpec == RandInit /\ [][RandNext]_svars

(***************************************************************************)
(* Bounded exhaustive: every stream of at most MaxSteps chunks of a menu   *)
(* after a fixed start, the open collections closed at the end.  Checked   *)
(* on the pass models (ModelOk, every sub-range of the passes) and emitted *)
(* for replay into the code.                                               *)
(***************************************************************************)
D(u) == <<L(0, W(u)), M(8, W(2))>>
MenuGlobal == {<<G(10, Z32)>>, <<G(11, Z32)>>, <<G(1, Z32)>>, <<G(2, W(7))>>, <<G(2, W(1))>>, <<G(3, Z32)>>, <<G(4, W(1))>>, <<G(4, W(7))>>,
               <<G(9, W(2))>>, <<G(9, W(1))>>, <<G(6, W(17))>>, D(48), D(49), <<M(8, W(3))>>, <<G(5, Neg(2))>>, <<G(7, W(3))>>, <<G(1, Neg(5))>>}
MenuBounds == {<<G(10, Z32)>>, <<G(11, Z32)>>, <<G(1, Z32), G(2, W(1))>>, <<G(1, Neg(5)), G(2, Z32)>>, <<G(2, W(7))>>, <<G(3, Z32), G(4, W(1))>>,
               <<G(3, Neg(5)), G(4, Z32)>>, <<G(3, Neg(5))>>, <<G(4, W(7))>>, <<G(3, Z32), G(4, Z32)>>, <<G(5, Neg(2))>>, <<G(5, Z32)>>, <<G(6, W(17))>>, <<G(6, Z32)>>,
               D(48), D(49)}
MenuLocal == {<<L(0, W(48))>>, <<L(0, W(49))>>, <<L(0, W(50))>>, <<L(1, W(49)), L(2, W(50))>>, <<L(7, W(4))>>, <<L(7, W(5))>>, <<L(3, W(0))>>, <<L(3, W(1))>>,
              <<L(4, W(0)), L(5, W(1))>>, <<L(10, W(1))>>, <<G(9, W(2))>>, <<M(8, W(2))>>, <<M(8, W(0))>>}
MenuPage == {<<G(0, W(1))>>, <<G(0, W(9))>>, <<L(0, W(48))>>, <<L(0, <<9, 1>>)>>, <<L(0, <<1, 49>>)>>, <<L(1, <<9, 1>>), L(2, <<9, 3>>)>>,
             <<G(10, Z32)>>, <<G(11, Z32)>>, <<G(10, Z32), L(0, W(50)), G(11, Z32)>>, <<M(8, W(2))>>, <<M(10, W(2))>>, <<M(12, Z32)>>}
MenuRep == {<<G(8, W(1))>>, <<G(8, W(2))>>, <<G(10, Z32)>>, <<G(11, Z32)>>, D(48), D(49), <<M(9, W(2))>>, <<L(0, W(1)), M(10, W(0))>>, <<M(12, Z32)>>,
            <<G(7, W(3))>>, <<M(8, W(3))>>}
MenuArray == {<<L(0, <<12, 54>>), M(10, W(2))>>, <<L(0, <<1, 48>>), M(10, W(2))>>, <<L(0, <<12, 54>>), M(10, W(4))>>, <<M(12, Z32)>>,
              <<L(0, W(2)), L(0, W(3)), M(8, Z32)>>, <<L(1, <<9, 1>>), L(2, <<9, 2>>), M(8, Z32)>>, <<L(0, W(2)), L(0, W(5)), M(8, W(64))>>,
              <<L(0, W(2)), L(0, W(5)), M(8, W(2))>>, <<G(9, W(2))>>, <<G(2, Z32)>>, <<L(0, W(7)), M(8, Z32)>>, <<G(7, W(3))>>, <<M(8, W(1))>>,
              <<G(6, W(17))>>}
\* No collection around.
MenuBare == {D(48), D(49), <<L(0, W(2)), M(10, W(1))>>, <<M(12, Z32)>>, <<G(10, Z32)>>, <<G(11, Z32)>>, <<G(8, W(1))>>, <<G(8, W(2))>>, <<G(9, W(2))>>,
             <<M(11, W(3))>>, <<L(0, W(2)), L(0, W(3)), M(8, Z32)>>, <<G(7, W(3))>>}
\* Data items that merge with their neighbour, and some that must not.
DF(u, f) == <<L(0, W(u)), M(8, W(f))>>
MenuMerge == {DF(48, 2), DF(49, 2), DF(48, 3), DF(48, 258), DF(49, 258), DF(48, 256), DF(49, 0), DF(49, 6), DF(48, 259), <<M(8, W(2))>>, <<M(8, W(258))>>,
              <<M(8, W(3))>>, <<L(0, W(48)), M(9, W(2))>>, <<L(0, W(50)), L(7, W(4)), M(8, W(2))>>, <<L(0, W(50)), L(3, W(4)), M(8, W(2))>>,
              <<L(0, W(50)), L(0, W(51)), M(8, W(2))>>, <<G(9, W(2))>>, <<G(9, Z32)>>, <<G(9, W(1))>>, <<L(0, W(3)), M(10, W(2)), M(12, Z32)>>}
MenuName == IF "MENU" \in DOMAIN IOEnv THEN IOEnv.MENU ELSE "global"
Menu == CASE MenuName = "global" -> MenuGlobal
          [] MenuName = "local"  -> MenuLocal
          [] MenuName = "page"   -> MenuPage
          [] MenuName = "bounds" -> MenuBounds
          [] MenuName = "rep"    -> MenuRep
          [] MenuName = "array"  -> MenuArray
          [] MenuName = "bare"   -> MenuBare
          [] MenuName = "merge"  -> MenuMerge
BStart == (IF MenuName = "bare" THEN <<G(0, W(1))>> ELSE <<G(0, W(1)), L(0, W(2)), M(10, W(1))>>)
          \o (IF MenuName = "rep" THEN <<G(8, W(1))>> ELSE <<>>)
          \o <<G(1, Z32), G(2, W(1)), G(7, W(8)), G(9, W(1))>>
BDep(x) == FoldLeft(LAMBDA a, it : IF it[1] = Main /\ it[2] = 10 THEN a + 1 ELSE IF it[1] = Main /\ it[2] = 12 THEN a - 1 ELSE a, 0, x)
Closed(x) == x \o [i \in 1..BDep(x) |-> M(12, Z32)]
InDomain(x) == LET a == Denote(x, "decl") IN a.bad = "" /\ a = Denote(x, "main")
Singles == <<<<0, 100>>, <<65, 100>>, <<55, 65>>, <<45, 55>>, <<37, 45>>, <<32, 37>>, <<25, 32>>, <<15, 25>>, <<0, 15>>>>
BfsInit == its = BStart /\ dep = 0 /\ pushed = 0 /\ n = 0 /\ fin = FALSE /\ prof = [ids |-> FALSE]
BfsAdd(c) == n < MaxSteps /\ ~fin /\ n' = n + 1 /\ its' = its \o c /\ (BDep(its') > 0 \/ (MenuName = "bare" /\ BDep(its') = 0)) /\ UNCHANGED <<dep, pushed, fin, prof>>
BfsFinish == /\ (n > 0 \/ MenuName = "bare") /\ ~fin /\ fin' = TRUE /\ its' = Closed(its) /\ InDomain(its') /\ UNCHANGED <<dep, pushed, n, prof>>
             /\ Emit([its |-> its', rs |-> Singles])
BfsNext == BfsFinish \/ \E c \in Menu : BfsAdd(c)
BfsSpec == BfsInit /\ [][BfsNext]_svars

(***************************************************************************)
(* Item by item: every item type with a pool of values, and every usage of *)
(* the tables, by page and in full.                                        *)
(***************************************************************************)
ItemVals == <<Z32, W(1), W(2), W(3), W(4), W(5), W(6), W(7), W(9), W(17), W(48), W(64), W(66), W(127), W(128), W(254), W(255), W(256), W(258), W(300), W(511), W(512),
              W(514), W(4097), W(32767), W(32768), W(61713), W(65535), <<1, 0>>, <<1, 48>>, <<9, 1>>, <<240, 53537>>, <<32767, 65535>>, <<32768, 0>>,
              <<65535, 65535>>, Neg(2), Neg(128), Neg(129), Neg(32768), Neg(32769)>>
Around(x) == <<G(0, W(1)), L(0, W(2)), M(10, W(1))>> \o x \o <<M(12, Z32)>>
OneType(t) ==
    CASE t = <<Main, 10>> -> FlattenSeq([i \in 1..256 |-> <<M(10, W(i - 1)), M(12, Z32)>>] \o [i \in 1..Len(ItemVals) |-> <<M(10, ItemVals[i]), M(12, Z32)>>])
      [] t \in {<<Main, 12>>, <<Global, 10>>, <<Global, 11>>} -> <<G(10, Z32), G(11, Z32)>>
      [] t = <<Global, 6>> -> [i \in 1..Len(UsualUnits) |-> G(6, UsualUnits[i])] \o [i \in 1..Len(ItemVals) |-> G(6, ItemVals[i])]
      [] t = <<Main, 8>> -> [i \in 1..512 |-> M(8, W(i - 1))] \o [i \in 1..Len(ItemVals) |-> M(8, ItemVals[i])]
      [] OTHER -> [i \in 1..Len(ItemVals) |-> Item(t[1], t[2], ItemVals[i])]
PageIds(p) == SetToSeq({j \in 0..4095 : Str(j) \in DOMAIN Hut[Str(p)]})
PageStream(p) == LET ids == PageIds(p)
                 IN  <<G(0, W(p))>> \o [i \in 1..Len(ids) |-> L(i % 3, W(ids[i]))] \o [i \in 1..Len(ids) |-> L((i + 1) % 3, <<p, ids[i]>>)]
NumberStream(p) == <<G(0, W(p))>> \o [i \in 1..260 |-> L(0, W(i - 1))] \o [i \in 1..260 |-> L(1, <<p, i * 37>>)] \o [i \in 1..260 |-> L(i % 3, W(i * 251))] \o [i \in 1..16 |-> L(0, W(2^i - 1))] \o <<L(2, W(65535))>>
UnknownStream == <<G(0, W(1)), L(0, W(999)), G(0, W(4660)), L(0, W(1)), L(0, W(4097)), L(1, <<4660, 9>>), G(0, Z32), L(0, W(48)), G(0, W(9)), L(2, W(48)),
                   G(10, Z32), G(0, W(1)), L(0, W(48)), G(10, Z32), G(0, W(12)), L(0, W(48)), G(11, Z32), L(0, W(48)), G(11, Z32), L(0, W(48)), L(2, W(1))>>
HutPages == {p \in 0..65535 : Str(p) \in DOMAIN Hut}
ListSpec == /\ its \in {Around(OneType(t)) : t \in ItemTypes} \cup {Around(PageStream(p)) : p \in HutPages}
                       \cup {Around(NumberStream(p)) : p \in {9, 10}} \cup {Around(UnknownStream)}
            /\ dep = 0 /\ pushed = 0 /\ n = 0 /\ fin = FALSE /\ prof = [ids |-> FALSE]
            /\ [][~fin /\ fin' = TRUE /\ Emit([its |-> its]) /\ UNCHANGED <<its, dep, pushed, n, prof>>]_svars

(***************************************************************************)
(* Deep, long and wide: one shape repeated k times, k around the powers of *)
(* two, so that no limit on depth, length or number goes unseen.           *)
(***************************************************************************)
DeepMax == EnvNat("DEEP", 130)
DeepSizes == {k \in {2, 3, 4, 5, 6, 7, 8, 9, 10, 12, 15, 16, 17, 20, 24, 31, 32, 33, 40, 50, 63, 64, 65, 80, 100, 101, 127, 128, 129, 130, 200, 254, 255, 256, 257, 258, 300, 511, 512, 513, 600} : k <= DeepMax}
Times(k, op(_)) == FoldLeft(LAMBDA acc, i : acc \o op(i), <<>>, [i \in 1..k |-> i])
\* The i-th change of a global, all different; with the usage at hand set anew each time.
DeepChange(i) ==
    LET j == i \div 9 IN
    CASE i % 9 = 0 -> <<G(0, W(1 + (j % 12)))>>
      [] i % 9 = 1 -> <<G(2, W(2 + i))>>
      [] i % 9 = 2 -> <<G(3, Neg(i))>>
      [] i % 9 = 3 -> <<G(4, W(1 + i))>>
      [] i % 9 = 4 -> <<G(6, W(17 + 16 * (j % 7)))>>
      [] i % 9 = 5 -> <<G(5, Neg(1 + (j % 8)))>>
      [] i % 9 = 6 -> <<G(7, W(1 + (j % 30)))>>
      [] i % 9 = 7 -> <<G(9, W(1 + (j % 5)))>>
      [] OTHER -> <<G(1, Neg(1 + i))>>
DeepKinds == {"push", "pushflat", "coll", "colls", "run", "gaps", "strings", "usages", "list", "ranges", "indexes", "ids", "array", "arraylist", "globals"}
\* (kinds with report IDs begin with one)
Deep(kind, k) ==
    CASE kind = "push" -> Times(k, LAMBDA i : DeepChange(i) \o <<G(10, Z32)>>) \o D(1) \o Times(k, LAMBDA i : <<G(11, Z32)>> \o D(1 + i))
      [] kind = "pushflat" -> Times(k, LAMBDA i : <<G(10, Z32)>> \o DeepChange(i) \o D(i) \o <<G(11, Z32)>> \o D(i))
      [] kind = "coll" -> Times(k, LAMBDA i : <<L(0, W(i)), M(10, W(i % 7))>> \o D(i)) \o Times(k, LAMBDA i : <<M(12, Z32)>> \o D(i))
      [] kind = "colls" -> Times(k, LAMBDA i : <<L(0, W(i)), M(10, W(i % 7))>> \o D(i) \o <<M(12, Z32)>>)
      [] kind = "run" -> Times(k, LAMBDA i : D(i))
      [] kind = "gaps" -> Times(k, LAMBDA i : D(2 * i))
      [] kind = "strings" -> Times(k, LAMBDA i : <<L(0, W(i)), L(7, W(i)), L(3, W(2 * i)), M(8, W(2))>>)
      [] kind = "usages" -> <<G(9, W(k))>> \o Times(k, LAMBDA i : <<L(0, W(i))>>) \o <<M(8, W(2))>> \o D(1)
      [] kind = "list" -> <<G(9, W(k))>> \o Times(k, LAMBDA i : <<L(0, W(i + (i \div (k - 1))))>>) \o <<M(8, W(2))>> \o D(1)
      [] kind = "ranges" -> <<G(9, W(2 * k))>> \o Times(k, LAMBDA i : <<L(1, W(3 * i)), L(2, W(3 * i + 1))>>) \o <<M(8, W(2))>>
      [] kind = "indexes" -> <<G(9, W(k)), L(1, W(1)), L(2, W(k))>> \o Times(k, LAMBDA i : <<L(3, W(i))>>) \o Times(k, LAMBDA i : <<L(7, W(2 * i))>>) \o <<M(8, W(2))>>
      [] kind = "ids" -> LET m == IF k < 255 THEN k ELSE 255
                         IN  Times(m, LAMBDA i : <<G(8, W(i)), G(7, W(1 + (i % 11)))>> \o D(i)) \o Times(m, LAMBDA i : <<G(8, W(m + 1 - i)), G(7, W(8))>> \o D(i) \o <<M(11, W(2))>>)
      [] kind = "array" -> <<G(1, W(1)), G(2, W(k)), G(7, W(16)), L(1, W(1)), L(2, W(k)), M(8, W(0))>>
      [] kind = "arraylist" -> <<G(1, W(1)), G(2, W(k)), G(7, W(16)), L(0, <<12, 54>>), M(10, W(2))>> \o Times(k, LAMBDA i : <<L(0, W(2 * i))>>) \o <<M(8, W(0)), M(12, Z32)>>
      [] OTHER -> Times(k, LAMBDA i : DeepChange(i) \o D(1 + (i % 3)))
DeepInit == \E kind \in DeepKinds, k \in DeepSizes :
               /\ its = Closed(BStart \o (IF kind = "ids" THEN SubSeq(Deep(kind, k), 1, 1) ELSE <<>>) \o Deep(kind, k)) /\ n = k
               /\ dep = 0 /\ pushed = 0 /\ fin = FALSE /\ prof = [ids |-> FALSE]
DeepSpec == DeepInit /\ [][~fin /\ fin' = TRUE /\ Emit([its |-> its, rs |-> Singles]) /\ UNCHANGED <<its, dep, pushed, n, prof>>]_svars
DeepOk == fin => InDomain(its)

(***************************************************************************)
(* Neighbours that differ in one global, flag or usage only, and there by  *)
(* little: the same but for the sign, the upper half, a byte, one bit.     *)
(***************************************************************************)
GlobalPairs == {<<t, p>> : t \in 1..6, p \in Pairs}
               \cup {<<t, p>> : t \in {7, 9}, p \in {q \in Pairs : q[1][1] = 0 /\ q[2][1] = 0 /\ q[1][2] \in 1..600 /\ q[2][2] \in 1..600}}
               \cup {<<8, p>> : p \in {q \in Pairs : q[1][1] = 0 /\ q[2][1] = 0 /\ q[1][2] \in 1..255 /\ q[2][2] \in 1..255}}
AkinStream(t, p) ==
    CASE t <= 9 -> (IF t = 8 THEN <<G(8, p[1])>> ELSE <<>>)
                   \o (IF t \in {3, 4, 5, 6} THEN <<G(3, Neg(3)), G(4, W(9))>> ELSE <<>>)
                   \o <<G(t, p[1])>> \o D(48) \o <<G(t, p[2])>> \o D(49) \o <<G(t, p[1])>> \o D(50)
      [] t = 10 -> <<L(0, W(48)), M(8, p[1]), L(0, W(49)), M(8, p[2]), L(0, W(50)), M(8, p[1])>>
      [] t = 11 -> <<L(0, p[1]), M(8, W(2)), L(0, p[2]), M(8, W(2)), G(9, W(3)), L(0, p[1]), L(0, p[2]), L(0, Inc(p[2])), M(8, W(2))>>
      [] t = 12 -> <<G(9, W(3)), L(1, W(1)), L(2, W(3)), L(7, p[1]), L(7, p[2]), L(7, Inc(p[2])), M(8, W(2)), L(1, W(1)), L(2, W(3)), L(3, p[1]), L(3, p[2]), L(3, Inc(p[2])), M(8, W(2))>>
      [] t = 13 -> <<G(0, W(p[1][2])), L(0, W(1)), M(8, W(2)), G(0, W(p[2][2])), L(0, W(2)), M(8, W(2)), G(0, W(p[1][2])), L(0, W(3)), M(8, W(2))>>
OtherPairs == {<<10, p>> : p \in Pairs} \cup {<<12, p>> : p \in Pairs}
              \cup {<<11, p>> : p \in {q \in Pairs : q[1][1] # 0 /\ q[2][1] # 0}}
              \cup {<<13, p>> : p \in {q \in Pairs : q[1][1] = 0 /\ q[2][1] = 0 /\ q[1][2] # 0 /\ q[2][2] # 0}}
AkinInit == \E x \in GlobalPairs \cup OtherPairs :
               /\ its = (IF x[1] = 8 THEN <<G(0, W(1)), L(0, W(2)), M(10, W(1)), G(1, Z32), G(2, W(1)), G(7, W(8)), G(9, W(1))>> ELSE BStart) \o AkinStream(x[1], x[2]) \o <<M(12, Z32)>>
               /\ n = 1 /\ dep = 0 /\ pushed = 0 /\ fin = FALSE /\ prof = [ids |-> FALSE]
AkinSpec == AkinInit /\ [][~fin /\ fin' = TRUE /\ Emit([its |-> its, rs |-> <<<<0, 100>>, <<55, 65>>, <<45, 55>>, <<37, 45>>, <<15, 37>>, <<0, 15>> >>]) /\ UNCHANGED <<its, dep, pushed, n, prof>>]_svars

\* The streams are what they say: every item is read back as itself.
ListOk == Items(EncodeAll(its)) = its
\* The decompiler model gives every expressible stream a tree of the same meaning.
ExtractOk == (fin /\ Expressible(its)) => SameMeaning(Extract(its), its) = ""

\* The optimiser model leaves no redundancy.
LeanOk == fin => Lean(Opt(its, 0, 100))

SubRanges == {<<Bounds[i], Bounds[j]>> : i \in 1..8, j \in 2..9}
ModelOk == (fin /\ n <= 20) => LET m == Denote(its, "main")
                      outs == {Opt(its, r[1], r[2]) : r \in {q \in SubRanges : q[1] < q[2]}}
                  IN  \A o \in outs : Diff(m, Denote(o, "main")) = "" /\ Diff(m, Denote(o, "decl")) = ""
=============================================================================
