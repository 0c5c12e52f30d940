------------------------------- MODULE HidNum -------------------------------
(***************************************************************************)
(* Integers of any sign up to 48 bits, as <<neg, a, b, c>> with magnitude  *)
(* a * 2^32 + b * 2^16 + c, and which of them an item can carry.           *)
(***************************************************************************)
EXTENDS HidItem, HidPool, FiniteSets

NumZero(n) == n[2] = 0 /\ n[3] = 0 /\ n[4] = 0
InRange(kind, tag, n) ==
    IF Bare(kind, tag) THEN NumZero(n)
    ELSE IF ~Signed(kind, tag) THEN (n[1] = 0 \/ NumZero(n)) /\ n[2] = 0
    ELSE n[2] = 0 /\ (n[3] < 32768 \/ (n[1] = 1 /\ n[3] = 32768 /\ n[4] = 0))
NumWord(n) == IF n[1] = 1 THEN NegW(<<n[3], n[4]>>) ELSE <<n[3], n[4]>>

\* Magnitudes around every power of two, and all small ones.
Pow(k) == IF k < 16 THEN <<0, 2^k>> ELSE <<2^(k-16), 0>>
Around == UNION {{Pow(k), Inc(Pow(k)), Inc(Inc(Pow(k))), SubW(Pow(k), W(1)), SubW(Pow(k), W(2))} : k \in 0..31}
          \cup {<<65535, 65535>>, <<65535, 65534>>, <<65534, 65535>>, <<4660, 22136>>, <<43981, 61185>>}
Small == {W(i) : i \in 0..260} \cup {UsualUnits[i] : i \in 1..Len(UsualUnits)}
Mags == {<<0, w[1], w[2]>> : w \in Around \cup Small}
        \cup {<<1, 0, 0>>, <<1, 0, 1>>, <<1, 0, 129>>, <<2, 0, 0>>, <<256, 0, 5>>, <<32768, 0, 0>>, <<65535, 65535, 65535>>}
Nums == {<<s, m[1], m[2], m[3]>> : s \in {0, 1}, m \in Mags}
=============================================================================
