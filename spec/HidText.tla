------------------------------ MODULE HidText ------------------------------
(***************************************************************************)
(* The text formats: texts are sequences of character codes, read by two   *)
(* lexer machines, one character per step.                                 *)
(***************************************************************************)
EXTENDS HidItem, TLC

\* Character codes of a TLA+ string (printable ASCII, ~ for newline).
Printable == " !\"#$%&'()*+,-./0123456789:;<=>?@ABCDEFGHIJKLMNOPQRSTUVWXYZ[\\]^_`abcdefghijklmnopqrstuvwxyz{|}"
Ord == [c \in {SubSeq(Printable, i, i) : i \in 1..Len(Printable)} |->
            CHOOSE k \in 32..126 : SubSeq(Printable, k - 31, k - 31) = c]
Txt(s) == [i \in 1..Len(s) |-> IF SubSeq(s, i, i) = "~" THEN 10 ELSE Ord[SubSeq(s, i, i)]]

LF == 10
Space(c) == c \in {9, 10, 11, 12, 13, 32}
HexDigit(c) == c \in 48..57 \/ c \in 65..70 \/ c \in 97..102
HexVal(c) == IF c <= 57 THEN c - 48 ELSE IF c <= 70 THEN c - 55 ELSE c - 87
WordChar(c) == c \in 48..57 \/ c \in 65..90 \/ c \in 97..122 \/ c = 95
Strip0x(t) == IF Len(t) > 2 /\ t[1] = 48 /\ t[2] \in {88, 120} THEN SubSeq(t, 3, Len(t)) ELSE t
Has0x(t) == Len(t) > 2 /\ t[1] = 48 /\ t[2] \in {88, 120}

(*--- C code: byte values separated by commas, comments anywhere between ----*)
CodeInit == [m |-> "code", tok |-> <<>>, out |-> <<>>, bad |-> ""]
CodeTok(s) ==
    LET d == Strip0x(s.tok)
    IN  IF s.tok = <<>> THEN s
        ELSE IF Has0x(s.tok) /\ Len(d) = 2 /\ HexDigit(d[1]) /\ HexDigit(d[2])
             THEN [s EXCEPT !.tok = <<>>, !.out = Append(@, HexVal(d[1]) * 16 + HexVal(d[2]))]
        ELSE IF Has0x(s.tok) /\ Len(d) = 1 /\ HexDigit(d[1]) THEN [s EXCEPT !.tok = <<>>, !.out = Append(@, HexVal(d[1]))]
        ELSE [s EXCEPT !.bad = "not a byte value"]
CodeStep(s, c) ==
    CASE s.m = "code"  -> IF c = 47 THEN [s EXCEPT !.m = "slash"]
                          ELSE IF Space(c) THEN s
                          ELSE IF c = 44 THEN CodeTok(s)
                          ELSE [s EXCEPT !.tok = Append(@, c)]
      [] s.m = "slash" -> IF c = 47 THEN [s EXCEPT !.m = "line"]
                          ELSE IF c = 42 THEN [s EXCEPT !.m = "block"]
                          ELSE [s EXCEPT !.bad = "stray slash", !.m = "code"]
      [] s.m = "line"  -> IF c = LF THEN [s EXCEPT !.m = "code"] ELSE s
      [] s.m = "block" -> IF c = 42 THEN [s EXCEPT !.m = "star"] ELSE s
      [] s.m = "star"  -> IF c = 47 THEN [s EXCEPT !.m = "code"] ELSE IF c = 42 THEN s ELSE [s EXCEPT !.m = "block"]
CodeLex(t) == LET s == CodeTok(FoldLeft(CodeStep, CodeInit, t))
              IN  [b |-> s.out, bad |-> IF s.bad # "" THEN s.bad ELSE IF s.m \in {"block", "star", "slash"} THEN "open comment" ELSE ""]

(*--- hex: two-digit words, perhaps prefixed; anything else (other words too, *)
(* such as the offsets of a dump) only separates them                          *)
HexInit == [w |-> <<>>, out |-> <<>>]
HexWord(s) ==
    LET d == Strip0x(s.w)
    IN  IF s.w = <<>> THEN s
        ELSE IF Len(d) = 2 /\ HexDigit(d[1]) /\ HexDigit(d[2])
             THEN [s EXCEPT !.w = <<>>, !.out = Append(@, HexVal(d[1]) * 16 + HexVal(d[2]))]
        ELSE [s EXCEPT !.w = <<>>]
HexStep(s, c) == IF WordChar(c) THEN [s EXCEPT !.w = Append(@, c)] ELSE HexWord(s)
HexLex(t) == LET s == HexWord(FoldLeft(HexStep, HexInit, t)) IN [b |-> s.out, bad |-> ""]

Lex(fmt, t) == CASE fmt = "binary" -> [b |-> t, bad |-> ""]
                 [] fmt = "hex"    -> HexLex(t)
                 [] fmt = "code"   -> CodeLex(t)
=============================================================================
