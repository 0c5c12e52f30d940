------------------------------ MODULE HidConst ------------------------------
(***************************************************************************)
(* The symbolic constants of the package (class, name) with the integers   *)
(* they stand for, and what operators on them give.                        *)
(***************************************************************************)
EXTENDS Wide, HidUnit, HutTable

FlagValue == [n \in {FlagNames[i][1] : i \in 1..9} \cup {FlagNames[i][2] : i \in 1..9} |->
                IF \E i \in 1..9 : FlagNames[i][1] = n THEN W(2^((CHOOSE i \in 1..9 : FlagNames[i][1] = n) - 1)) ELSE Z32]
KindValue == [n \in {KindNames[i] : i \in 1..Len(KindNames)} |-> W((CHOOSE i \in 1..Len(KindNames) : KindNames[i] = n) - 1)]
WayValue == ("Input" :> W(8)) @@ ("Output" :> W(9)) @@ ("Feature" :> W(11))
TypeValue == ("Main" :> W(0)) @@ ("Global" :> W(1)) @@ ("Local" :> W(2))
ConstValue(c) ==
    CASE c[1] = "flag" -> FlagValue[c[2]]
      [] c[1] = "kind" -> KindValue[c[2]]
      [] c[1] = "way"  -> WayValue[c[2]]
      [] c[1] = "type" -> TypeValue[c[2]]
      [] c[1] = "tag"  -> W(TagNames[c[2]][2])
      [] c[1] = "system" -> W(Systems[c[2]])
      [] c[1] = "unit" -> UnitCode(WellKnown[c[2]][1], WellKnown[c[2]][2])
      [] c[1] = "usage" -> c[3]
ItemConsts == ({"flag"} \X DOMAIN FlagValue) \cup ({"kind"} \X DOMAIN KindValue) \cup ({"way"} \X DOMAIN WayValue) \cup ({"type"} \X DOMAIN TypeValue)
              \cup ({"tag"} \X DOMAIN TagNames) \cup ({"system"} \X (DOMAIN Systems \ {"None"})) \cup ({"unit"} \X DOMAIN WellKnown)

\* Operators: a is the constant, b the other operand.  <<>>: not defined here.
BoolRes(p) == IF p THEN <<1>> ELSE <<0>>
OpResult(op, a, b) ==
    CASE op \in {"add", "radd"} -> WAdd(a, b)
      [] op \in {"mul", "rmul"} -> WMul(a, b)
      [] op \in {"and", "rand"} -> WBit("and", a, b)
      [] op \in {"or", "ror"}   -> WBit("or", a, b)
      [] op = "shl"  -> IF AsShift(b) \in 0..40 THEN WShl(a, AsShift(b)) ELSE <<>>
      [] op = "shr"  -> IF AsShift(b) \in 0..40 THEN WShr(a, AsShift(b)) ELSE <<>>
      [] op = "rshl" -> IF AsShift(a) \in 0..40 THEN WShl(b, AsShift(a)) ELSE <<>>
      [] op = "rshr" -> IF AsShift(a) \in 0..40 THEN WShr(b, AsShift(a)) ELSE <<>>
      [] op \in {"eq", "req", "in"} -> BoolRes(a = b)
      [] op \in {"ne", "rne"} -> BoolRes(a # b)
      [] op \in {"lt", "rgt"} -> BoolRes(WLt(a, b))
      [] op \in {"gt", "rlt"} -> BoolRes(WLt(b, a))
      [] op \in {"le", "rge"} -> BoolRes(~WLt(b, a))
      [] op \in {"ge", "rle"} -> BoolRes(~WLt(a, b))
\* What is no number equals none.  The results of ==, == (swapped), !=, != (swapped), and of looking for the constant among it.
Others == <<"nothing", "text", "name", "list", "object">>
OtherResult == <<0, 0, 1, 1, 0>>
\* These are always supported; others may be refused, but never give another result.
Supported == {"add", "mul", "and", "or", "shl", "shr", "rand", "ror", "eq", "req", "ne", "rne", "lt", "rgt", "in"}
=============================================================================
