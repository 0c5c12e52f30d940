------------------------------ MODULE GenUnit ------------------------------
(***************************************************************************)
(* Units to build: a system and six exponents.  Every system with every    *)
(* exponent of every dimension and with every pair of corner exponents,    *)
(* exponents out of range, and random vectors.                             *)
(***************************************************************************)
EXTENDS HidUnit, Json, IOUtils, Randomization, FiniteSets

VARIABLES us, fin
Emit(rec) == Serialize(ToJson(rec) \o "\n", IOEnv.OUT,
                [format |-> "TXT", charset |-> "UTF-8", openOptions |-> <<"WRITE", "CREATE", "APPEND">>]).exitValue = 0
Zero6 == <<0, 0, 0, 0, 0, 0>>
One(d, x) == [Zero6 EXCEPT ![d] = x]
Two(c, x, d, y) == [Zero6 EXCEPT ![c] = x, ![d] = y]
Corners == {-8, -1, 1, 7}
Batch(k) == CASE k = 0 -> {One(1, x) : x \in -8..7}
              [] k \in 1..6 -> {One(k, x) : x \in -8..7}
              [] k \in 7..12 -> {Two(k - 6, x, d, y) : x \in Corners, d \in (1..6) \ {k - 6}, y \in Corners}
              [] k = 13 -> {[i \in 1..6 |-> x] : x \in -8..7}
              [] k = 14 -> {WellKnown[n][2] : n \in DOMAIN WellKnown}
              [] k = 15 -> {One(d, x) : d \in 1..6, x \in {-4096, -256, -129, -17, -16, -15, -10, -9, 8, 9, 10, 15, 16, 17, 24, 127, 255, 256, 4096}}
              [] k = 16 -> {Two(c, 1, 1 + (c % 6), x) : c \in 1..6, x \in {-9, 8}}
\* us: <<system, exponents>>
TableSpec == /\ us \in {LET s == SetToSeq(Batch(k)) IN [i \in 1..Len(s) |-> <<sys, s[i]>>] : sys \in DOMAIN Systems, k \in 1..16}
             /\ fin = FALSE
             /\ [][~fin /\ fin' = TRUE /\ us' = us /\ Emit([us |-> us])]_<<us, fin>>
\* The code determines system and exponents.
UnitOk == \A i \in 1..Len(us) :
            LET e == us[i][2]
                w == UnitCode(us[i][1], e)
            IN  UnitValid(e) => IsW(w) /\ SysOf(w) = Systems[us[i][1]] /\ \A k \in 1..6 : ExpOf(w, k) = e[k]
SysSeq == SetToSeq(DOMAIN Systems)
RandUnit(x) == <<SysSeq[RandomElement(1..Len(SysSeq))],
                 [k \in 1..6 |-> RandomElement({RandomElement(-8..7), RandomElement(-3..3), 0, IF RandomElement(1..40) = 1 THEN RandomElement(-12..12) ELSE 0})]>>
RandSpec == /\ us = <<>> /\ fin = FALSE
            /\ [][~fin /\ fin' = TRUE /\ us' = [i \in 1..20 |-> RandUnit(i)] /\ Emit([us |-> us'])]_<<us, fin>>
=============================================================================
