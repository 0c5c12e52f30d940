------------------------------ MODULE HutTable ------------------------------
(***************************************************************************)
(* The USB HID Usage Tables as far as the package defines them (hut.json:  *)
(* page -> id -> <<module, name, usage types>>), and the codes HID 1.11    *)
(* assigns to item tags, collection kinds and data-item flags.             *)
(***************************************************************************)
EXTENDS HidItem, TLC, Json, IOUtils

Hut == JsonDeserialize(IOEnv.HUT)
Str(n) == ToString(n)
\* Pages whose usages are numbered instead of named.
Numbered == (9 :> <<"button", "Button", <<"MC", "OOC", "OSC", "Sel">>>>) @@ (10 :> <<"ordinal", "Ordinal", <<"CL">>>>)
\* Modules that are only known once imported explicitly.
OptIn == {65280}
InTable(w) == Str(w[1]) \in DOMAIN Hut /\ Str(w[2]) \in DOMAIN Hut[Str(w[1])]
Known(w) == w[1] \in DOMAIN Numbered \/ (InTable(w) /\ w[1] \notin OptIn)
\* <<module, name, usage types>>
Entry(w) == IF w[1] \in DOMAIN Numbered
            THEN LET e == Numbered[w[1]] IN <<e[1], e[2] \o "(" \o Str(w[2]) \o ")", e[3]>>
            ELSE Hut[Str(w[1])][Str(w[2])]
Dotted(w) == Entry(w)[1] \o "." \o Entry(w)[2]
\* Usage types about which HUT revisions (or readings of them) differ.
KindsOk(w, ks) == ks = Entry(w)[3] \/ (w = <<32, 1038>> /\ ks = <<"NAry">>)

\* Modules and pages.
PageModules == {Hut[p][CHOOSE i \in DOMAIN Hut[p] : TRUE][1] : p \in DOMAIN Hut} \cup {"button", "ordinal"}

\* Names under which a page may be shown.
PageTitles == (1 :> "GenericDesktop") @@ (2 :> "Simulation") @@ (3 :> "VR") @@ (5 :> "Game") @@ (6 :> "Device") @@ (7 :> "Keyboard") @@ (8 :> "Led")
              @@ (9 :> "Button") @@ (10 :> "Ordinal") @@ (11 :> "TelephonyDevice") @@ (12 :> "Consumer") @@ (13 :> "Digitizers") @@ (15 :> "PID")
              @@ (32 :> "Sensors") @@ (89 :> "Lighting") @@ (144 :> "Camera") @@ (65280 :> "Arcade")
ModuleOf(p) == IF p \in DOMAIN Numbered THEN Numbered[p][1]
               ELSE IF Str(p) \in DOMAIN Hut THEN Hut[Str(p)][CHOOSE i \in DOMAIN Hut[Str(p)] : TRUE][1] ELSE ""
PageTexts(p) == (IF p \in DOMAIN PageTitles THEN {PageTitles[p]} ELSE {}) \cup (IF ModuleOf(p) # "" THEN {ModuleOf(p)} ELSE {})

TagNames ==
    ("Input" :> <<0, 8>>) @@ ("Output" :> <<0, 9>>) @@ ("Feature" :> <<0, 11>>) @@ ("Collection" :> <<0, 10>>) @@ ("EndCollection" :> <<0, 12>>)
    @@ ("UsagePage" :> <<1, 0>>) @@ ("LogicalMinimum" :> <<1, 1>>) @@ ("LogicalMaximum" :> <<1, 2>>) @@ ("PhysicalMinimum" :> <<1, 3>>)
    @@ ("PhysicalMaximum" :> <<1, 4>>) @@ ("UnitExponent" :> <<1, 5>>) @@ ("Unit" :> <<1, 6>>) @@ ("ReportSize" :> <<1, 7>>) @@ ("ReportID" :> <<1, 8>>)
    @@ ("ReportCount" :> <<1, 9>>) @@ ("Push" :> <<1, 10>>) @@ ("Pop" :> <<1, 11>>)
    @@ ("Usage" :> <<2, 0>>) @@ ("UsageMinimum" :> <<2, 1>>) @@ ("UsageMaximum" :> <<2, 2>>) @@ ("DesignatorIndex" :> <<2, 3>>)
    @@ ("DesignatorMinimum" :> <<2, 4>>) @@ ("DesignatorMaximum" :> <<2, 5>>) @@ ("StringIndex" :> <<2, 7>>) @@ ("StringMinimum" :> <<2, 8>>)
    @@ ("StringMaximum" :> <<2, 9>>) @@ ("Delimiter" :> <<2, 10>>)
TagName(kind, tag) == CHOOSE n \in DOMAIN TagNames : TagNames[n] = <<kind, tag>>
KindNames == <<"Physical", "Application", "Logical", "Report", "NamedArray", "UsageSwitch", "UsageModifier">>
\* data-item flags: name when the bit is set, name when it is clear
FlagNames == <<<<"Constant", "Data">>, <<"Variable", "Array">>, <<"Relative", "Absolute">>, <<"Wrap", "NoWrap">>, <<"NonLinear", "Linear">>,
               <<"NoPreferred", "PreferredState">>, <<"NullState", "NoNullPosition">>, <<"Volatile", "NonVolatile">>, <<"BufferedBytes", "BitField">>>>
=============================================================================
