------------------------------ MODULE GenConst ------------------------------
(***************************************************************************)
(* Every symbolic constant against integers and other constants.           *)
(***************************************************************************)
EXTENDS HidConst, Json, IOUtils, FiniteSets

VARIABLES cst, fin
Emit(rec) == Serialize(ToJson(rec) \o "\n", IOEnv.OUT,
                [format |-> "TXT", charset |-> "UTF-8", openOptions |-> <<"WRITE", "CREATE", "APPEND">>]).exitValue = 0
Ints == <<Small(0), Small(1), Small(2), Small(3), Small(4), Small(8), Small(11), Small(15), Small(17), Small(31), Small(40), Small(48), Small(255), WideOf(W(256)), WideOf(W(65535)), WideOf(<<1, 48>>),
          WideOf(<<32767, 65535>>), WideOf(<<32768, 0>>), WideOf(<<65535, 65535>>), WNot(Small(0)), WNot(Small(2)), WNot(Small(255)), WNot(WideOf(<<32767, 65535>>))>>
Partners == <<<<"flag", "Variable">>, <<"flag", "Data">>, <<"flag", "BufferedBytes">>, <<"kind", "Physical">>, <<"kind", "Application">>, <<"tag", "Delimiter">>, <<"unit", "Volt">>,
              <<"unit", "Centimeter">>, <<"system", "SILinear">>, <<"usage", "desktop.X", <<1, 48>>>>, <<"usage", "button.Button(3)", <<9, 3>>>>,
              <<"usage", "0xff01abcd", <<65281, 43981>>>>, <<"way", "Feature">>>>
UsagesOf(k) == {<<"usage", Dotted(w), w>> : w \in k}
Sample == {<<1, 1>>, <<1, 48>>, <<9, 1>>, <<9, 65535>>, <<10, 7>>, <<12, 54>>, <<7, 4>>, <<13, 1>>, <<32, 1038>>, <<144, 32>>}
AllKnown == {w \in {<<p, i>> : p \in {q \in 0..255 : Str(q) \in DOMAIN Hut}, i \in 0..2303} : InTable(w)}
Usages == UsagesOf(IF "ALL" \in DOMAIN IOEnv THEN AllKnown \cup Sample ELSE Sample)
          \cup {<<"usage", "0x0", Z32>>, <<"usage", "0xff01abcd", <<65281, 43981>>>>, <<"usage", "0xffffffff", <<65535, 65535>>>>}
Spec == /\ cst \in ItemConsts \cup Usages /\ fin = FALSE
        /\ [][~fin /\ fin' = TRUE /\ cst' = cst /\ Emit([c |-> cst, ints |-> Ints, consts |-> Partners, others |-> Others])]_<<cst, fin>>
\* Laws of the arithmetic used as oracle.
Cur == WideOf(ConstValue(cst))
WideOk == \A k \in 1..Len(Ints) :
            LET b == Ints[k]
            IN  /\ WAdd(Cur, WAdd(b, WAdd(WNot(b), Small(1)))) = Cur
                /\ WAdd(WMul(Cur, b), Cur) = WMul(Cur, WAdd(b, Small(1)))
                /\ WAdd(WBit("and", Cur, b), WBit("or", Cur, b)) = WAdd(Cur, b)
                /\ WShr(WShl(Cur, 13), 13) = Cur /\ WShl(Cur, 9) = WMul(Cur, Pow2(9))
                /\ (WLt(Cur, b) \/ WLt(b, Cur)) = (Cur # b) /\ ~(WLt(Cur, b) /\ WLt(b, Cur))
                /\ WLt(Cur, WAdd(Cur, Small(1)))
=============================================================================
