----------------------------- MODULE Trace_Item -----------------------------
(***************************************************************************)
(* C01: recorded encodings.  Record r: item type r.kind, r.tag and, per    *)
(* value r.ns[i], what the code did with it in each of several ways:       *)
(* r.res[i] = list of [how, b, err].                                       *)
(* C02: recorded decodings.  Record r: byte strings r.bs and per string    *)
(* r.res[i] = list of [how, its, neg, err], its being <<kind, tag, hi, lo>>*)
(* and neg telling which of the values are negative numbers.               *)
(***************************************************************************)
EXTENDS HidNum, TraceBase

Prop == IOEnv.PROP

Num(n) == ToString(n)
EncBad(r, n, o) ==
    IF ~InRange(r.kind, r.tag, n) THEN
        IF o.err # "" THEN "" ELSE "value out of range accepted (" \o o.how \o ")"
    ELSE IF o.err # "" THEN "value refused (" \o o.how \o "): " \o o.err
    ELSE IF o.b \in Canonical(Item(r.kind, r.tag, NumWord(n))) THEN ""
    ELSE LET d == Decode(o.b) IN
         IF d.bad # "" \/ d.items # <<Item(r.kind, r.tag, NumWord(n))>> THEN "wrong bytes " \o ToString(o.b) \o " (" \o o.how \o ")"
         ELSE "not the shortest form: " \o ToString(o.b) \o " (" \o o.how \o ")"

HasBare(its) == \E i \in 1..Len(its) : Bare(its[i][1], its[i][2]) /\ Val(its[i]) # Z32
NegSigns(its) == [i \in 1..Len(its) |-> IF Signed(its[i][1], its[i][2]) /\ IsNeg(Val(its[i])) THEN 1 ELSE 0]
DecBad(b, o) ==
    LET d == Decode(b)
    IN  IF d.bad # "" THEN IF o.err # "" THEN "" ELSE "malformed bytes (" \o d.bad \o ") accepted (" \o o.how \o ")"
        ELSE IF HasBare(d.items) THEN ""
        ELSE IF o.err # "" THEN "well-formed bytes refused (" \o o.how \o "): " \o o.err
        ELSE IF o.its # d.items THEN "items differ (" \o o.how \o "): " \o ToString(o.its)
        ELSE IF o.neg # NegSigns(d.items) THEN "signs differ (" \o o.how \o "): " \o ToString(o.its) \o ToString(o.neg)
        ELSE ""

\* First failing clause over the list of lists.
Clause(r) ==
    LET inp == IF Prop = "C01" THEN r.ns ELSE r.bs
        f(i, j) == IF Prop = "C01" THEN EncBad(r, r.ns[i], r.res[i][j]) ELSE DecBad(r.bs[i], r.res[i][j])
        S == {i \in 1..Len(inp) : \E j \in 1..Len(r.res[i]) : f(i, j) # ""}
    IN  IF S = {} THEN ""
        ELSE LET i == CHOOSE k \in S : \A q \in S : k <= q
                 j == CHOOSE k \in 1..Len(r.res[i]) : f(i, k) # "" /\ \A q \in 1..(k-1) : f(i, q) = ""
             IN  "input " \o ToString(inp[i]) \o ": " \o f(i, j)
Info(r) == {}

VARIABLES l, bad, info
Init == l = 0 /\ bad = <<>> /\ info = NoInfo
Next == /\ l < Len(Trace)
        /\ l' = l + 1
        /\ LET r == Trace[l + 1]
               v == Clause(r)
           IN  /\ bad' = IF v = "" THEN bad ELSE Append(bad, <<r.id, v>>)
               /\ info' = Bump(info, Info(r))
        /\ (l + 1 < Len(Trace) \/ WriteVerdict(l + 1, bad', info'))
TraceSpec == Init /\ [][Next]_<<l, bad, info>>
=============================================================================
