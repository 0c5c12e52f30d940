----------------------------- MODULE Trace_Const -----------------------------
(***************************************************************************)
(* C20.  r.k = "const": the constant r.c, its text, integer and hash, its  *)
(* inversion, and per other operand (r.ints, r.consts) the results of the  *)
(* operators ([] when refused).  r.k = "tree": compilations of a tree      *)
(* written with constants and with plain integers.                         *)
(***************************************************************************)
EXTENDS HidConst, TraceBase

Operand(r, k) == IF k <= Len(r.ints) THEN r.ints[k] ELSE WideOf(ConstValue(r.consts[k - Len(r.ints)]))
OpBad(r, a, b, o) ==
    LET want == OpResult(o[1], a, b)
    IN  want # <<>> /\ o[2] # want /\ ~(o[2] = <<>> /\ o[1] \notin Supported)
ConstVerdict(r) ==
    LET a == WideOf(ConstValue(r.c))
        what == r.c[1] \o " " \o r.c[2] \o ": "
        badk == {k \in 1..Len(r.res) : \E j \in 1..Len(r.res[k]) : OpBad(r, a, Operand(r, k), r.res[k][j])}
    IN  IF r.err # "" THEN what \o r.err
        ELSE IF r.int # a THEN what \o "its integer is " \o ToString(r.int)
        ELSE IF r.text # r.c[2] THEN what \o "its text is " \o r.text
        ELSE IF r.hash # a THEN what \o "its hash"
        ELSE IF r.inv # WNot(a) THEN what \o "inversion"
        ELSE IF badk # {} THEN
             LET k == CHOOSE x \in badk : TRUE
                 j == CHOOSE y \in 1..Len(r.res[k]) : OpBad(r, a, Operand(r, k), r.res[k][y])
             IN  what \o r.res[k][j][1] \o " with " \o ToString(Operand(r, k)) \o " gives " \o ToString(r.res[k][j][2])
        ELSE IF \E k \in 1..Len(r.alien) : r.alien[k][2] # OtherResult THEN
             LET k == CHOOSE x \in 1..Len(r.alien) : r.alien[x][2] # OtherResult
             IN  what \o "comparing with " \o r.alien[k][1] \o " gives " \o ToString(r.alien[k][2])
        ELSE ""
TreeVerdict(r) ==
    IF r.err # r.err2 THEN "with integers: " \o r.err2 \o ", with constants: " \o r.err
    ELSE IF r.plain # r.plain2 THEN "constants and integers compile to different bytes (not optimised)"
    ELSE IF r.opt # r.opt2 THEN "constants and integers compile to different bytes (optimised)" ELSE ""
Verdict(r) == IF r.k = "const" THEN ConstVerdict(r) ELSE TreeVerdict(r)
Info(r) == {r.k}

VARIABLES l, bad, info
Init == l = 0 /\ bad = <<>> /\ info = NoInfo
Next == /\ l < Len(Trace)
        /\ l' = l + 1
        /\ LET r == Trace[l + 1]
               v == Verdict(r)
           IN  /\ bad' = IF v = "" THEN bad ELSE Append(bad, <<r.id, v>>)
               /\ info' = Bump(info, Info(r))
        /\ (l + 1 < Len(Trace) \/ WriteVerdict(l + 1, bad', info'))
TraceSpec == Init /\ [][Next]_<<l, bad, info>>
=============================================================================
