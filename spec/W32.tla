-------------------------------- MODULE W32 --------------------------------
(***************************************************************************)
(* 32-bit words.  TLC's integers are 32-bit signed, so a word is the pair  *)
(* <<hi, lo>> of its 16-bit halves, two's complement when it is signed.    *)
(***************************************************************************)
EXTENDS Integers, Sequences, SequencesExt

Half == 0..65535
Z32 == <<0, 0>>
IsW(w) == Len(w) = 2 /\ w[1] \in Half /\ w[2] \in Half
W(n) == <<0, n>>                              \* for n in Half
Neg(n) == IF n = 0 THEN Z32 ELSE <<65535, 65536 - n>>   \* for n in 0..65536

\* The word as a TLC integer; only for words whose signed value is wanted.
SInt(w) == IF w[1] < 32768 THEN w[1] * 65536 + w[2]
           ELSE (w[1] - 65536) * 65536 + w[2]
IsNeg(w) == w[1] >= 32768

ULt(a, b) == a[1] < b[1] \/ (a[1] = b[1] /\ a[2] < b[2])
ULe(a, b) == a = b \/ ULt(a, b)
SLt(a, b) == LET x == (a[1] + 32768) % 65536
                 y == (b[1] + 32768) % 65536
             IN  x < y \/ (x = y /\ a[2] < b[2])
SLe(a, b) == a = b \/ SLt(a, b)

Inc(w) == IF w[2] < 65535 THEN <<w[1], w[2] + 1>> ELSE <<(w[1] + 1) % 65536, 0>>
AddW(a, b) == LET l == a[2] + b[2]
              IN  <<(a[1] + b[1] + (l \div 65536)) % 65536, l % 65536>>
NotW(a) == <<65535 - a[1], 65535 - a[2]>>
NegW(a) == Inc(NotW(a))
SubW(a, b) == AddW(a, NegW(b))

\* Little-endian bytes of the low n bytes of a word, n in {1, 2, 4}.
LE(w, n) == CASE n = 0 -> <<>>
              [] n = 1 -> <<w[2] % 256>>
              [] n = 2 -> <<w[2] % 256, w[2] \div 256>>
              [] n = 4 -> <<w[2] % 256, w[2] \div 256, w[1] % 256, w[1] \div 256>>

\* n bytes b[i..] read little-endian, zero- or sign-extended.
FromLE(b, i, n, signed) ==
    CASE n = 0 -> Z32
      [] n = 1 -> IF signed /\ b[i] >= 128 THEN <<65535, 65280 + b[i]>> ELSE <<0, b[i]>>
      [] n = 2 -> LET l == b[i] + 256 * b[i+1]
                  IN  IF signed /\ l >= 32768 THEN <<65535, l>> ELSE <<0, l>>
      [] n = 4 -> <<b[i+2] + 256 * b[i+3], b[i] + 256 * b[i+1]>>

\* Bit operations on halves and words, nibble-wise (only 0..15 recursion).
RECURSIVE BitOp(_, _, _, _)
BitOp(op, a, b, n) ==
    IF n = 0 THEN 0
    ELSE LET x == a % 2
             y == b % 2
             r == CASE op = "and" -> x * y
                    [] op = "or"  -> IF x + y > 0 THEN 1 ELSE 0
                    [] op = "xor" -> (x + y) % 2
         IN  r + 2 * BitOp(op, a \div 2, b \div 2, n - 1)
OrW(a, b) == <<BitOp("or", a[1], b[1], 16), BitOp("or", a[2], b[2], 16)>>
AndW(a, b) == <<BitOp("and", a[1], b[1], 16), BitOp("and", a[2], b[2], 16)>>
Bit(w, i) == IF i < 16 THEN (w[2] \div (2^i)) % 2 ELSE (w[1] \div (2^(i-16))) % 2

\* Decimal digits of an unsigned word, most significant first.
RECURSIVE DigitsU(_)
DigitsU(w) ==
    LET qh == w[1] \div 10
        rh == w[1] % 10
        t  == rh * 65536 + w[2]
        q  == <<qh, t \div 10>>
        d  == t % 10
    IN  IF q = Z32 THEN <<d>> ELSE Append(DigitsU(q), d)

\* Slices of lists: s[a:b:step], for step # 0.
LesserOf(a, b) == IF a < b THEN a ELSE b
ListSlice(s, a, b, step) ==
    LET low   == IF step > 0 THEN 0 ELSE -1
        adj(i) == IF i < 0 THEN -LesserOf(-(Len(s) + i), -low) ELSE LesserOf(i, IF step > 0 THEN Len(s) ELSE Len(s) - 1)
        far   == adj(b)
    IN  FoldLeft(LAMBDA acc, k : LET i == adj(a) + (k - 1) * step
                                 IN  IF (IF step > 0 THEN i < far ELSE i > far) THEN Append(acc, s[i + 1]) ELSE acc,
                 <<>>, [k \in 1..Len(s) |-> k])
=============================================================================
