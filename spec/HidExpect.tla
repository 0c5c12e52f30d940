----------------------------- MODULE HidExpect -----------------------------
(***************************************************************************)
(* The helper that compares a compiled descriptor with expected bytes: the *)
(* comparing machine, and the ways in which expected bytes may be wrong.   *)
(***************************************************************************)
EXTENDS Integers, Sequences, SequencesExt

(*--- the machine: takes the compiled bytes chunk by chunk, then the end -----*)
CmpInit == [at |-> 0, failed |-> FALSE, closed |-> FALSE]
CmpTake(exp, s, chunk) ==
    IF s.failed THEN s
    ELSE IF s.at + Len(chunk) <= Len(exp) /\ SubSeq(exp, s.at + 1, s.at + Len(chunk)) = chunk
         THEN [s EXCEPT !.at = @ + Len(chunk)]
    ELSE [s EXCEPT !.failed = TRUE]
CmpClose(exp, s) == [s EXCEPT !.closed = TRUE, !.failed = @ \/ s.at # Len(exp)]

(*--- expected bytes made from the right ones: m = <<what, where, value>> -----*)
At(b, k) == (k % Len(b)) + 1
Mutate(b, m) ==
    LET n == Len(b)
        k == IF n = 0 THEN 1 ELSE At(b, m[2])
    IN  CASE m[1] = "same"   -> b
          [] m[1] = "empty"  -> <<>>
          [] m[1] = "extend" -> b \o [i \in 1..((m[2] % 3) + 1) |-> m[3]]
          [] m[1] = "front"  -> <<m[3]>> \o b
          [] m[1] = "twice"  -> b \o b
          [] n = 0           -> b
          [] m[1] = "change" -> [b EXCEPT ![k] = (@ + m[3]) % 256]
          [] m[1] = "over"   -> [b EXCEPT ![k] = @ + 256]   \* no byte at all
          [] m[1] = "flip"   -> [b EXCEPT ![k] = IF @ % 2 = 0 THEN @ + 1 ELSE @ - 1]
          [] m[1] = "last"   -> [b EXCEPT ![n] = (@ + m[3]) % 256]
          [] m[1] = "drop"   -> SubSeq(b, 1, k - 1) \o SubSeq(b, k + 1, n)
          [] m[1] = "dup"    -> SubSeq(b, 1, k) \o SubSeq(b, k, n)
          [] m[1] = "insert" -> SubSeq(b, 1, k - 1) \o <<m[3]>> \o SubSeq(b, k, n)
          [] m[1] = "swap"   -> IF k = n THEN b ELSE [b EXCEPT ![k] = b[k + 1], ![k + 1] = b[k]]
          [] m[1] = "turn"   -> SubSeq(b, k, n) \o SubSeq(b, 1, k - 1)
          [] m[1] = "cut"    -> SubSeq(b, 1, k - 1)
          [] m[1] = "tail"   -> SubSeq(b, k, n)
Mutations == {"same", "empty", "extend", "front", "twice", "change", "over", "flip", "last", "drop", "dup", "insert", "swap", "turn", "cut", "tail"}
=============================================================================
