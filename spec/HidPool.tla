------------------------------ MODULE HidPool ------------------------------
(***************************************************************************)
(* Values that have a name, for generators to draw from.                   *)
(***************************************************************************)
LOCAL INSTANCE HidUnit
LOCAL INSTANCE SequencesExt
LOCAL INSTANCE W32

UsualUnits == SetToSeq({UnitCode(WellKnown[n][1], WellKnown[n][2]) : n \in DOMAIN WellKnown})

\* Words, and what is easily taken for them.
Words == {Z32, W(1), W(2), W(5), W(66), W(127), W(128), W(200), W(255), W(256), W(1000), W(32767), W(32768), W(65535), <<1, 0>>, <<1, 2>>, <<255, 65535>>,
          Neg(1), Neg(5), Neg(128), Neg(129), Neg(32768), Neg(32769), <<32767, 65535>>, <<32768, 0>>}
Akin(w) == {NegW(w), NotW(w), Inc(w), SubW(w, W(1)), <<0, w[2]>>, <<65535, w[2]>>, <<(w[1] + 1) % 65536, w[2]>>, <<w[2], w[1]>>, <<0, w[2] % 256>>,
            <<w[1], (w[2] + 128) % 65536>>, <<w[1], (w[2] + 256) % 65536>>, <<w[1], (w[2] + 32768) % 65536>>, <<(w[1] + 32768) % 65536, w[2]>>,
            <<w[1], (w[2] % 256) * 256 + (w[2] \div 256)>>} \ {w}
\* Pairs of a word and one akin to it.
Pairs == UNION {{<<w, v>> : v \in Akin(w)} : w \in Words}
=============================================================================
