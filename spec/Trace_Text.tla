----------------------------- MODULE Trace_Text -----------------------------
(***************************************************************************)
(* C04: recorded readings.  Record r: text r.t of format r.fmt, the items  *)
(* r.its the parser produced or the error r.err.                           *)
(* C03: recorded conversions.  Record r: input bytes r.b, r.texts the      *)
(* distinct results [fmt, t, via] of converting between every two formats  *)
(* once and twice, r.errs the errors raised.                               *)
(***************************************************************************)
EXTENDS HidText, TraceBase

Prop == IOEnv.PROP

ReadBad(r) ==
    LET d == Lex(r.fmt, r.t)
    IN  IF d.bad # "" \/ ~WellFormed(d.b) THEN ""
        ELSE IF r.err # "" THEN r.fmt \o " text refused: " \o r.err
        ELSE IF r.its # Items(d.b) THEN r.fmt \o " text read as " \o ToString(r.its) ELSE ""

OneText(items, x, d) ==
    LET what == x.via[1] \o ": "
        its == Decode(d.b)
    IN  IF d.bad # "" THEN what \o d.bad
        ELSE IF its.bad # "" THEN what \o "malformed bytes"
        ELSE IF its.items # items THEN what \o "items differ: " \o ToString(its.items)
        ELSE IF ~IsCanonical(d.b) THEN what \o "not canonical: " \o ToString(d.b)
        ELSE ""
ConvBad(r) ==
    LET items == Items(r.b)
        n == Len(r.texts)
        lexed == FoldLeft(LAMBDA a, x : Append(a, Lex(x.fmt, x.t)), <<>>, r.texts)
        S == {i \in 1..n : OneText(items, r.texts[i], lexed[i]) # ""}
    IN  IF r.errs # <<>> THEN r.errs[1]
        ELSE IF S # {} THEN LET k == CHOOSE i \in S : \A j \in S : i <= j IN OneText(items, r.texts[k], lexed[k])
        ELSE IF \E i, j \in 1..n : lexed[i].b # lexed[j].b
             THEN "results differ in their bytes"
        ELSE IF \E i, j \in 1..n : i # j /\ r.texts[i].fmt = r.texts[j].fmt THEN
             LET p == CHOOSE q \in (1..n) \X (1..n) : q[1] # q[2] /\ r.texts[q[1]].fmt = r.texts[q[2]].fmt
             IN  "converting again changes the " \o r.texts[p[1]].fmt \o " text: " \o r.texts[p[1]].via[1] \o " / " \o r.texts[p[2]].via[1]
        ELSE ""

Domain(b) == LET d == Decode(b) IN d.bad = "" /\ \A i \in 1..Len(d.items) : Bare(d.items[i][1], d.items[i][2]) => Val(d.items[i]) = Z32
Verdict(r) == IF Prop = "C04" THEN ReadBad(r) ELSE IF ~Domain(r.b) THEN "" ELSE ConvBad(r)
Info(r) == IF Prop = "C04" THEN IF Lex(r.fmt, r.t).bad # "" THEN {"outside"} ELSE {r.fmt}
           ELSE IF Domain(r.b) THEN {} ELSE {"outside"}

VARIABLES l, bad, info
Init == l = 0 /\ bad = <<>> /\ info = NoInfo
Next == /\ l < Len(Trace)
        /\ l' = l + 1
        /\ LET r == Trace[l + 1]
               v == Verdict(r)
           IN  /\ bad' = IF v = "" THEN bad ELSE Append(bad, <<r.id, v>>)
               /\ info' = Bump(info, Info(r))
        /\ (l + 1 < Len(Trace) \/ WriteVerdict(l + 1, bad', info'))
TraceSpec == Init /\ [][Next]_<<l, bad, info>>
=============================================================================
