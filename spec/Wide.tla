-------------------------------- MODULE Wide --------------------------------
(***************************************************************************)
(* 96-bit two's complement integers as 12 bytes, least significant first:  *)
(* wide enough for every result of operating on 32-bit constants.          *)
(***************************************************************************)
EXTENDS W32

NB == 12
WideOf(w) == [i \in 1..NB |-> IF i <= 2 THEN (w[2] \div (256^(i - 1))) % 256 ELSE IF i <= 4 THEN (w[1] \div (256^(i - 3))) % 256 ELSE 0]
Small(k) == [i \in 1..NB |-> IF i = 1 THEN k ELSE 0]              \* for k in 0..255
RECURSIVE Carry(_, _, _)
Carry(s, i, cy) == IF i > NB THEN <<>> ELSE LET t == s[i] + cy IN <<t % 256>> \o Carry(s, i + 1, t \div 256)
WAdd(a, b) == Carry([i \in 1..NB |-> a[i] + b[i]], 1, 0)
RECURSIVE Conv(_, _, _, _)
Conv(a, b, i, j) == IF j > i THEN 0 ELSE a[j] * b[i - j + 1] + Conv(a, b, i, j + 1)
WMul(a, b) == Carry([i \in 1..NB |-> Conv(a, b, i, 1)], 1, 0)
WNot(a) == [i \in 1..NB |-> 255 - a[i]]
WBit(op, a, b) == [i \in 1..NB |-> BitOp(op, a[i], b[i], 8)]
WNeg(a) == a[NB] >= 128
\* Shifts by 0..40.
Pow2(k) == [i \in 1..NB |-> IF k \div 8 = i - 1 THEN 2^(k % 8) ELSE 0]
WShl(a, k) == WMul(a, Pow2(k))
Ext(a, i) == IF i <= NB THEN a[i] ELSE IF WNeg(a) THEN 255 ELSE 0
WShr(a, k) == LET q == k \div 8
                  r == k % 8
              IN  [i \in 1..NB |-> (Ext(a, i + q) \div (2^r)) + (((Ext(a, i + q + 1) % (2^r)) * (2^(8 - r))) % 256)]
\* Order.
Top(a) == (a[NB] + 128) % 256
RECURSIVE LtFrom(_, _, _)
LtFrom(a, b, i) == IF i = 0 THEN FALSE
                   ELSE LET x == IF i = NB THEN Top(a) ELSE a[i]
                            y == IF i = NB THEN Top(b) ELSE b[i]
                        IN  IF x # y THEN x < y ELSE LtFrom(a, b, i - 1)
WLt(a, b) == LtFrom(a, b, NB)
AsShift(a) == IF WNeg(a) \/ \E i \in 2..NB : a[i] # 0 THEN -1 ELSE a[1]
=============================================================================
