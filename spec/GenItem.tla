------------------------------ MODULE GenItem ------------------------------
(***************************************************************************)
(* Single items and byte strings, enumerated.                              *)
(*  ItemSpec: every item type with every value of Nums; the codec's own    *)
(*    laws are invariants.                                                 *)
(*  ByteSpec: every prefix byte followed by 0..5 bytes of a few patterns,  *)
(*    optionally after a good item.                                        *)
(*  RandSpec: random byte streams: items in any payload size, then perhaps *)
(*    damaged.                                                             *)
(***************************************************************************)
EXTENDS HidNum, TLC, Json, IOUtils, Randomization

VARIABLES x, fin
vars == <<x, fin>>
Emit(rec) == Serialize(ToJson(rec) \o "\n", IOEnv.OUT,
                [format |-> "TXT", charset |-> "UTF-8", openOptions |-> <<"WRITE", "CREATE", "APPEND">>]).exitValue = 0

(*--- items -----------------------------------------------------------------*)
ItemInit == x \in ItemTypes /\ fin = FALSE
ItemNext == /\ ~fin /\ fin' = TRUE /\ x' = x
            /\ Emit([kind |-> x[1], tag |-> x[2], ns |-> SetToSeq(Nums)])
ItemSpec == ItemInit /\ [][ItemNext]_vars
\* The codec's laws for one item.
ItemLaw(it) ==
    /\ \A e \in Canonical(it) : Decode(e) = [p |-> Len(e) + 1, items |-> <<it>>, bad |-> ""]
    /\ \A k \in {0, 1, 2, 4} : (k < Shortest(it) /\ k # 0) => Decode(EncodeAs(it, k)).items # <<it>>
    /\ \A k \in {0, 1, 2, 4} : Fits(it, k) <=> Decode(EncodeAs(it, k)).items = <<it>>
    /\ IsCanonical(Enc1(it))
CodecOk == fin => \A v \in Nums : InRange(x[1], x[2], v) => ItemLaw(Item(x[1], x[2], NumWord(v)))

(*--- byte strings -----------------------------------------------------------*)
Pays == {<<0>>, <<1>>, <<127>>, <<128>>, <<255>>,
         <<0, 0>>, <<0, 1>>, <<255, 127>>, <<0, 128>>, <<254, 255>>, <<200, 0>>,
         <<0, 0, 0>>, <<1, 2, 3>>,
         <<0, 0, 0, 0>>, <<255, 0, 0, 0>>, <<0, 0, 0, 128>>, <<255, 255, 255, 255>>, <<120, 86, 52, 18>>, <<48, 0, 9, 0>>,
         <<192, 192, 192, 192, 192>>, <<1, 161, 1, 5, 1>>}
ByteInit == x \in 0..255 /\ fin = FALSE
ByteNext == /\ ~fin /\ fin' = TRUE /\ x' = x
            /\ Emit([bs |-> SetToSeq({<<x>> \o p : p \in Pays \cup {<<>>}} \cup {<<5, 1, x>> \o p : p \in {<<>>, <<0>>, <<1, 2, 3, 4>>}}
                                       \cup {<<5, 1, x, 7, 8, 9, 10>> \o q : q \in {<<192>>, <<21>>}})])
ByteSpec == ByteInit /\ [][ByteNext]_vars
\* Decoding consumes everything or says why not, and is inverted by encoding.
DecodeOk == fin => \A p \in Pays : LET b == <<x>> \o p
                                       d == Decode(b)
                                   IN  d.bad = "" => /\ d.p = Len(b) + 1
                                                     /\ Items(EncodeAll(d.items)) = d.items
                                                        \/ \E i \in 1..Len(d.items) : Bare(d.items[i][1], d.items[i][2])

(*--- every item type in every payload size that can carry the value -----------*)
Vals == {Z32, W(1), W(48), W(127), W(128), W(255), W(256), W(32767), W(32768), W(65535), <<1, 0>>, <<9, 1>>, <<32767, 65535>>,
         <<32768, 0>>, <<65535, 65535>>, Neg(2), Neg(128), Neg(129), Neg(32768), Neg(32769)}
Sized == {EncodeAs(Item(x[1], x[2], w), k) : w \in IF Bare(x[1], x[2]) THEN {Z32} ELSE Vals, k \in {0, 1, 2, 4}}
SizeInit == x \in ItemTypes /\ fin = FALSE
SizeNext == /\ ~fin /\ fin' = TRUE /\ x' = x
            /\ Emit([bs |-> SetToSeq(Sized)])
SizeSpec == SizeInit /\ [][SizeNext]_vars
\* Converting is canonicalising: nothing changes the second time.
CanonOk == fin => \A b \in Sized : LET c == EncodeAll(Items(b))
                                   IN  IsCanonical(c) /\ Items(c) = Items(b) /\ EncodeAll(Items(c)) = c

(*--- pairs of items to compare --------------------------------------------------*)
CmpVals == {Z32, W(1), W(2), W(255), W(256), <<1, 48>>, <<32767, 65535>>, Neg(1), Neg(128), <<32768, 0>>}
CmpItems == {Item(t[1], t[2], w) : t \in ItemTypes, w \in CmpVals}
CmpAll == {i \in CmpItems : Bare(i[1], i[2]) => Val(i) = Z32}
CmpSeq == SetToSeq(CmpAll)
PairInit == x \in CmpAll /\ fin = FALSE
PairNext == ~fin /\ fin' = TRUE /\ x' = x /\ Emit([a |-> x, bs |-> CmpSeq])
PairSpec == PairInit /\ [][PairNext]_vars
CmpFew == {i \in CmpAll : Val(i) \in {Z32, W(2), Neg(1)} /\ i[2] \in {0, 1, 8}}
LessOk == fin => /\ ~Less(x, x)
                 /\ \A b \in CmpAll : b = x \/ (Less(x, b) /\ ~Less(b, x)) \/ (Less(b, x) /\ ~Less(x, b))
                 /\ \A b \in CmpAll, d \in CmpFew : (Less(x, b) /\ Less(b, d)) => Less(x, d)

(*--- random pairs: the same or nearly the same item ---------------------------*)
NearWord(w) == CASE RandomElement(1..3) = 1 -> w [] RandomElement(1..2) = 1 -> AddW(w, RandomElement({W(1), Neg(1), W(256), <<1, 0>>, <<32768, 0>>}))
                 [] OTHER -> <<RandomElement(0..65535), RandomElement(0..65535)>>
NearType(t) == IF RandomElement(1..4) = 1 THEN RandomElement(ItemTypes) ELSE t
NearItem(a) == LET t == NearType(<<a[1], a[2]>>) IN Item(t[1], t[2], IF Bare(t[1], t[2]) THEN Z32 ELSE NearWord(Val(a)))
NearInit == x = <<>> /\ fin = FALSE
NearNext == IF x = <<>> THEN fin' = fin /\ \E t \in {RandomElement(ItemTypes)} :
                                x' = Item(t[1], t[2], IF Bare(t[1], t[2]) THEN Z32 ELSE NearWord(<<RandomElement(0..65535), RandomElement(0..65535)>>))
            ELSE ~fin /\ fin' = TRUE /\ x' = x /\ Emit([a |-> x, bs |-> [i \in 1..60 |-> NearItem(x)]])
NearSpec == NearInit /\ [][NearNext]_vars

(*--- random numbers -----------------------------------------------------------*)
NumInit == x = 0 /\ fin = FALSE
NumNext == /\ ~fin /\ fin' = TRUE /\ x' = x
           /\ \E t \in {RandomElement(ItemTypes)} :
                Emit([kind |-> t[1], tag |-> t[2], ns |-> [i \in 1..100 |-> <<RandomElement(0..1), IF RandomElement(1..8) = 1 THEN RandomElement(0..65535) ELSE 0,
                        IF RandomElement(1..3) = 1 THEN 0 ELSE RandomElement(0..65535), RandomElement(0..65535)>>]])
NumSpec == NumInit /\ [][NumNext]_vars

(*--- random streams ----------------------------------------------------------*)
R(S) == RandomElement(S)
Pick(s) == s[RandomElement(1..Len(s))]
TypeSeq == SetToSeq(ItemTypes)
RandWord(z) == LET k == R(1..6) IN
    CASE k = 1 -> W(R(0..255)) [] k = 2 -> W(R(0..65535)) [] k = 3 -> <<R(0..65535), R(0..65535)>>
      [] k = 4 -> Neg(R(0..300)) [] k = 5 -> Neg(R(0..65536)) [] OTHER -> LET w == Pow(R(0..31)) IN AddW(w, Pick(<<Z32, W(1), Neg(1)>>))
\* one item, in one of the payload sizes that can carry it
RandItemBytes(z) ==
    LET t == Pick(TypeSeq)
        w == IF Bare(t[1], t[2]) THEN Z32 ELSE RandWord(0)
        it == Item(t[1], t[2], w)
        ok == SelectSeq(<<0, 1, 2, 4>>, LAMBDA k : Fits(it, k))
    IN  IF ok = <<>> THEN EncodeAs(it, 4) ELSE EncodeAs(it, Pick(ok))
RandBytes(z) ==
    LET m == R(1..8)
        b == FlattenSeq([i \in 1..m |-> RandItemBytes(i)])
        k == R(1..10)
    IN  IF k = 1 THEN SubSeq(b, 1, R(0..Len(b)))
        ELSE IF k = 2 THEN b \o <<R(0..255)>>
        ELSE IF k = 3 THEN [b EXCEPT ![R(1..Len(b))] = R(0..255)]
        ELSE IF k = 4 THEN b \o <<254, 2, 1, 5, 6>> \o RandItemBytes(0)
        ELSE b
\* long ones
LongInit == x \in {300, 1500, 3000, 9000} /\ fin = FALSE
LongNext == ~fin /\ fin' = TRUE /\ x' = x /\ Emit([bs |-> <<FlattenSeq([i \in 1..x |-> RandItemBytes(i)])>>])
LongSpec == LongInit /\ [][LongNext]_vars

RandInit == x = 0 /\ fin = FALSE
RandNext == ~fin /\ fin' = TRUE /\ x' = x /\ Emit([bs |-> [i \in 1..20 |-> RandBytes(i)]])
RandSpec == RandInit /\ [][RandNext]_vars
=============================================================================
