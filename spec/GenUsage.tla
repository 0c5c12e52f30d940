------------------------------ MODULE GenUsage ------------------------------
(***************************************************************************)
(* Usage numbers to resolve: every known one, every pairing of a page and  *)
(* an ID of a grid of boundaries, and random ones.                         *)
(***************************************************************************)
EXTENDS HutTable, Randomization, FiniteSets

VARIABLES ws, fin
Emit(rec) == Serialize(ToJson(rec) \o "\n", IOEnv.OUT,
                [format |-> "TXT", charset |-> "UTF-8", openOptions |-> <<"WRITE", "CREATE", "APPEND">>]).exitValue = 0
PageSeq == SetToSeq({p \in 0..65535 : Str(p) \in DOMAIN Hut})
GridPages == {0, 1, 2, 4, 6, 9, 10, 12, 13, 14, 16, 32, 127, 128, 144, 255, 256, 32767, 32768, 65279, 65280, 65281, 65535}
GridIds == {0, 1, 2, 9, 10, 48, 127, 128, 129, 255, 256, 1000, 32767, 32768, 65534, 65535}
Batches == [i \in 1..Len(PageSeq) |-> {<<PageSeq[i], j>> : j \in {j \in 0..4095 : Str(j) \in DOMAIN Hut[Str(PageSeq[i])]}}]
           \o [i \in 1..2 |-> {<<8 + i, j>> : j \in 0..300}]
           \o <<GridPages \X GridIds>>
TableSpec == /\ ws \in {SetToSeq(Batches[i]) : i \in 1..Len(Batches)} /\ fin = FALSE
             /\ [][~fin /\ fin' = TRUE /\ ws' = ws /\ Emit([ws |-> ws])]_<<ws, fin>>
\* Names and numbers are one to one over the table.
TableOk == \A i \in 1..Len(ws), j \in 1..Len(ws) :
              (Known(ws[i]) /\ Known(ws[j]) /\ Dotted(ws[i]) = Dotted(ws[j])) => ws[i] = ws[j]
RandomW(x) == LET p == RandomElement(GridPages \cup 0..40)
                  q == RandomElement({p, RandomElement(0..65535)})
              IN  <<q, RandomElement({RandomElement(GridIds), RandomElement(0..700), RandomElement(0..65535)})>>
RandSpec == /\ ws = <<>> /\ fin = FALSE
            /\ [][~fin /\ fin' = TRUE /\ ws' = [i \in 1..20 |-> RandomW(i)] /\ Emit([ws |-> ws'])]_<<ws, fin>>

\* Ranges of usages, to be used as lists.
RangeStarts == {<<1, 1>>, <<1, 48>>, <<9, 0>>, <<9, 126>>, <<7, 224>>, <<65280, 1>>, <<1, 65534>>, <<0, 5>>, <<65535, 65530>>, <<12, 127>>}
RangeLens == {0, 1, 2, 3, 5}
RangeIx == <<-7, -6, -5, -4, -3, -2, -1, 0, 1, 2, 3, 4, 5, 6>>
\* <<from, to, step>>
RangeSl == <<<<0, 2, 1>>, <<1, 3, 1>>, <<-2, 9, 1>>, <<0, -1, 1>>, <<3, 1, 1>>, <<1, 1, 1>>, <<0, 5, 2>>, <<1, 9, 3>>, <<9, -9, -1>>,
             <<-1, 0, -2>>, <<3, 0, -1>>, <<-4, 4, 2>>>>
Elems(lo, k) == [i \in 1..k |-> AddW(lo, W(i - 1))]
RangeCase(lo, k, how) == [lo |-> lo, hi |-> IF k = 0 THEN SubW(lo, W(1)) ELSE AddW(lo, W(k - 1)), how |-> how, ix |-> RangeIx, sl |-> RangeSl]
RangeSpec == /\ ws \in {RangeCase(lo, k, how) : lo \in RangeStarts, k \in RangeLens, how \in {"int", "usage", "array"}}
             /\ (ws.how = "array" => SubW(ws.hi, ws.lo) \in {W(1), W(2), W(4)})
             /\ fin = FALSE
             /\ [][~fin /\ fin' = TRUE /\ ws' = ws /\ Emit(ws)]_<<ws, fin>>
\* No range wraps around the 32-bit space.
RangeOk == SubW(ws.hi, ws.lo) = W(0) \/ ULt(ws.lo, ws.hi) \/ Inc(ws.hi) = ws.lo
=============================================================================
