------------------------------ MODULE HidUnit ------------------------------
(***************************************************************************)
(* Units (HID 1.11, 6.2.2.7): seven nibbles, the unit system and the       *)
(* exponents of length, mass, time, temperature, current and luminous      *)
(* intensity as two's complement nibbles.                                  *)
(***************************************************************************)
EXTENDS HidItem, TLC

Systems == ("None" :> 0) @@ ("SILinear" :> 1) @@ ("SIRotation" :> 2) @@ ("EnglishLinear" :> 3) @@ ("EnglishRotation" :> 4)
Dims == <<"length", "mass", "time", "temperature", "current", "luminousintensity">>
InRange(x) == -8 <= x /\ x <= 7
Nibble(x) == IF x < 0 THEN x + 16 ELSE x
\* e: the six exponents, each in -8..7
UnitCode(sys, e) == <<Nibble(e[4]) + 16 * Nibble(e[5]) + 256 * Nibble(e[6]),
                      Systems[sys] + 16 * Nibble(e[1]) + 256 * Nibble(e[2]) + 4096 * Nibble(e[3])>>
UnitValid(e) == \A i \in 1..6 : InRange(e[i])
\* Reading a unit code.
NibbleOf(w, k) == IF k < 4 THEN (w[2] \div (16^k)) % 16 ELSE (w[1] \div (16^(k - 4))) % 16
ExpOf(w, k) == LET d == NibbleOf(w, k) IN IF d >= 8 THEN d - 16 ELSE d
SysOf(w) == NibbleOf(w, 0)

WellKnown ==
    ("Centimeter" :> <<"SILinear", <<1, 0, 0, 0, 0, 0>>>>) @@ ("Radian" :> <<"SIRotation", <<1, 0, 0, 0, 0, 0>>>>)
    @@ ("Inch" :> <<"EnglishLinear", <<1, 0, 0, 0, 0, 0>>>>) @@ ("Degree" :> <<"EnglishRotation", <<1, 0, 0, 0, 0, 0>>>>)
    @@ ("Gram" :> <<"SILinear", <<0, 1, 0, 0, 0, 0>>>>) @@ ("Slug" :> <<"EnglishLinear", <<0, 1, 0, 0, 0, 0>>>>)
    @@ ("Second" :> <<"None", <<0, 0, 1, 0, 0, 0>>>>) @@ ("Kelvin" :> <<"SILinear", <<0, 0, 0, 1, 0, 0>>>>)
    @@ ("Fahrenheit" :> <<"EnglishLinear", <<0, 0, 0, 1, 0, 0>>>>) @@ ("Ampere" :> <<"None", <<0, 0, 0, 0, 1, 0>>>>)
    @@ ("Candela" :> <<"None", <<0, 0, 0, 0, 0, 1>>>>) @@ ("CmPerSec" :> <<"SILinear", <<1, 0, -1, 0, 0, 0>>>>)
    @@ ("Momentum" :> <<"SILinear", <<1, 1, -1, 0, 0, 0>>>>) @@ ("G" :> <<"SILinear", <<1, 0, -2, 0, 0, 0>>>>)
    @@ ("Newton" :> <<"SILinear", <<1, 1, -2, 0, 0, 0>>>>) @@ ("Joule" :> <<"SILinear", <<2, 1, -2, 0, 0, 0>>>>)
    @@ ("Volt" :> <<"SILinear", <<2, 1, -3, 0, -1, 0>>>>)
=============================================================================
