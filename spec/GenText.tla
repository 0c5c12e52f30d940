------------------------------ MODULE GenText ------------------------------
(***************************************************************************)
(* Texts to read.  GapSpec: every choice of gaps (spaces, line ends,       *)
(* comments) around the values of a fixed item list; RandSpec: random item *)
(* streams in random layouts.  Each text carries the bytes it stands for,  *)
(* and LexOk says that the lexer machines agree.                           *)
(***************************************************************************)
EXTENDS HidText, Json, IOUtils, Randomization

VARIABLES x, fin
vars == <<x, fin>>
Emit(rec) == Serialize(ToJson(rec) \o "\n", IOEnv.OUT,
                [format |-> "TXT", charset |-> "UTF-8", openOptions |-> <<"WRITE", "CREATE", "APPEND">>]).exitValue = 0

Lower == Txt("0123456789abcdef")
Upper == Txt("0123456789ABCDEF")
Hex2(b, up) == LET d == IF up THEN Upper ELSE Lower IN <<d[b \div 16 + 1], d[(b % 16) + 1]>>
Hex1(b) == <<Lower[b + 1]>>
Ox == Txt("0x")
OX == Txt("0X")

CodeGaps == <<Txt(""), Txt(" "), Txt("~"), Txt("// a, 0x07,~"), Txt("/* 0x01, */"), Txt("/* // */"), Txt("// /* ~"), Txt("/**/"),
              Txt("/* b~ 0x02, 3~*/"), Txt("/***/"), Txt(" // 0x07, */~  "), Txt("/* * / http://x.y/z */"), Txt("//~//~"), <<13, 10>>, <<9>>,
              Txt("/* \" ' 0x1 */ /* 2, */"), Txt("/* // ~ // */~"), Txt("// UsagePage (desktop)~")>>
HexGaps == <<Txt(" "), Txt("~"), Txt(", "), Txt(";"), Txt(" ~ "), <<13, 10>>, <<9>>, Txt(",~"), Txt(" : "), Txt("-"), Txt("|"), Txt("  "), Txt(","), Txt("/"), Txt(" {~~"), Txt(" )[] "), <<12>>, Txt("."),
             Txt(" 0010: "), Txt(" 0x123,"), Txt(" item_1 "), Txt(" 5~"), Txt(" 0a_0b -0x "), Txt("~0100  ")>>

Fixed == <<5, 1, 161, 2, 38, 255, 0, 192>>

\* A text need not end with a line end, not even after a comment.
Chop(t) == IF t # <<>> /\ t[Len(t)] = LF THEN SubSeq(t, 1, Len(t) - 1) ELSE t

(*--- every combination of gaps ----------------------------------------------*)
\* x = <<fmt, g1, g2, g3, g4>>
NG(f) == IF f = "code" THEN Len(CodeGaps) ELSE Len(HexGaps)
Gap(k) == IF x[1] = "code" THEN CodeGaps[x[2 + (k % 3)]] ELSE HexGaps[x[2 + (k % 3)]]
CodeText(bs, last) ==
    FoldLeft(LAMBDA acc, i : acc \o (IF i = 3 THEN OX ELSE Ox) \o Hex2(bs[i], i % 2 = 0) \o Gap(2 * i) \o
                 (IF i < Len(bs) \/ last THEN Txt(",") ELSE <<>>) \o Gap(2 * i + 1), Gap(1), [i \in 1..Len(bs) |-> i])
HexText(bs) ==
    FoldLeft(LAMBDA acc, i : acc \o (CASE i % 3 = 0 -> Ox [] i % 4 = 0 -> OX [] OTHER -> <<>>) \o Hex2(bs[i], i % 2 = 0) \o
                 (IF i < Len(bs) THEN Gap(i) ELSE <<>>), <<>>, [i \in 1..Len(bs) |-> i])
GapText == IF x[1] = "code" THEN LET t == CodeText(SubSeq(Fixed, 1, 4), x[2] % 2 = 0) IN IF x[3] % 2 = 0 THEN Chop(t) ELSE t ELSE HexText(SubSeq(Fixed, 1, 4))
GapInit == \E f \in {"code", "hex"} : \E a, b, c \in 1..NG(f) : x = <<f, a, b, c>> /\ fin = FALSE
GapNext == /\ ~fin /\ fin' = TRUE /\ x' = x
           /\ Emit([fmt |-> x[1], t |-> GapText])
GapSpec == GapInit /\ [][GapNext]_vars
LexOk == fin => Lex(x[1], GapText) = [b |-> SubSeq(Fixed, 1, 4), bad |-> ""]

(*--- random -------------------------------------------------------------------*)
R(S) == RandomElement(S)
Pick(s) == s[RandomElement(1..Len(s))]
TypeSeq == SetToSeq(ItemTypes)
RandItemBytes(z) ==
    LET t == Pick(TypeSeq)
        w == IF Bare(t[1], t[2]) THEN Z32 ELSE Pick(<<W(R(0..255)), W(R(0..65535)), <<R(0..65535), R(0..65535)>>, Neg(R(0..300))>>)
        it == Item(t[1], t[2], w)
        ok == SelectSeq(<<0, 1, 2, 4>>, LAMBDA k : Fits(it, k))
    IN  EncodeAs(it, Pick(ok))
RandBytes(z) == FlattenSeq([i \in 1..R(1..8) |-> RandItemBytes(i)])
\* random comment contents: no comment end, no newline in line comments
CommentChars == Txt("0123 ab,xX/ ./(){}\"';#-_")
RandComment(z) == LET n == R(0..12)
                      c == [i \in 1..n |-> Pick(CommentChars)]
                      c2 == FoldLeft(LAMBDA a, i : Append(a, IF R(1..6) = 1 THEN LF ELSE IF R(1..8) = 1 THEN 42
                                                           ELSE IF a # <<>> /\ a[Len(a)] = 42 THEN 48 ELSE Pick(CommentChars)), <<>>, [i \in 1..n |-> i])
                      k == R(1..4)
                  IN  IF k = 1 THEN Txt("// ") \o c \o <<LF>>
                      ELSE IF k = 2 THEN Txt("/* ") \o c2 \o Txt(" */")
                      ELSE Pick(CodeGaps)
RandCode(bs) ==
    LET n == Len(bs)
        val(i) == IF bs[i] < 16 /\ R(1..3) = 1 THEN Ox \o Hex1(bs[i]) ELSE (IF R(1..8) = 1 THEN OX ELSE Ox) \o Hex2(bs[i], R(1..2) = 1)
        gap(i) == IF R(1..3) = 1 THEN RandComment(i) ELSE Pick(<<Txt(""), Txt(" "), Txt("~"), <<13, 10>>>>)
        last == R(1..2) = 1
        t == FoldLeft(LAMBDA acc, i : acc \o val(i) \o gap(i) \o (IF i < n \/ last THEN Txt(",") ELSE <<>>) \o gap(i),
                 gap(0), [i \in 1..n |-> i])
    IN  Pick(<<t, Chop(t)>>)
RandHex(bs) ==
    LET n == Len(bs)
        val(i) == Pick(<<Ox, <<>>, <<>>, Ox, <<>>, OX>>) \o Hex2(bs[i], R(1..2) = 1)
    IN  FoldLeft(LAMBDA acc, i : acc \o val(i) \o (IF i < n THEN Pick(HexGaps) ELSE Pick(<<Txt(""), Txt("~"), Txt(" ; ~")>>)), Pick(<<<<>>, <<>>, Txt("~"), Txt(" {"), Txt("0000: ")>>), [i \in 1..n |-> i])
RandInit == x = 0 /\ fin = FALSE
RandNext == /\ ~fin /\ fin' = TRUE /\ x' = x
            /\ \E bs \in {RandBytes(0)} :
                 \E r \in {[fmt |-> "code", t |-> RandCode(bs)], [fmt |-> "hex", t |-> RandHex(bs)]} :
                    Assert(Lex(r.fmt, r.t) = [b |-> bs, bad |-> ""], "lexer") /\ Emit(r)
RandSpec == RandInit /\ [][RandNext]_vars
=============================================================================
