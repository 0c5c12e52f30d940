----------------------------- MODULE GenSession -----------------------------
(***************************************************************************)
(* IsoSpec: two jobs on every short input, in every schedule.              *)
(* AllSpec: every interleaving of two jobs of K steps each.                *)
(* RandSpec: random jobs and schedules, some of them cut short.            *)
(***************************************************************************)
EXTENDS HidSession, Json, IOUtils, TLC, Randomization

VARIABLES job, input, fin
vars == <<job, input, fin>>
Emit(rec) == Serialize(ToJson(rec) \o "\n", IOEnv.OUT,
                [format |-> "TXT", charset |-> "UTF-8", openOptions |-> <<"WRITE", "CREATE", "APPEND">>]).exitValue = 0

(*--- isolation of the model -----------------------------------------------------*)
Items3 == UNION {[1..k -> {"a", "b"}] : k \in 0..3}
IsoInit == /\ input \in [{1, 2} -> Items3] /\ job = [j \in {1, 2} |-> Idle] /\ fin = FALSE
Step(j) == \/ job[j].st = "idle" /\ job' = [job EXCEPT ![j].st = "live"]
           \/ /\ job[j].st = "live" /\ job[j].at < Len(input[j])
              /\ job' = [job EXCEPT ![j] = [Offer(@, input[j][@.at + 1]) EXCEPT !.at = @ + 1]]
           \/ job[j].st = "live" /\ job[j].at = Len(input[j]) /\ job' = [job EXCEPT ![j] = Flush(@)]
           \/ job[j].st = "live" /\ job' = [job EXCEPT ![j].st = "stopped"]
IsoSpec == IsoInit /\ [][\E j \in {1, 2} : Step(j) /\ UNCHANGED <<input, fin>>]_vars
IsoOk == \A j \in {1, 2} : /\ job[j].st = "done" => job[j].out = Alone(input[j]) /\ job[j].held = <<>>
                           /\ job[j].st = "live" => IsPrefix(job[j].out, Alone(input[j]))

(*--- every interleaving -----------------------------------------------------------*)
Kinds == <<"compile", "convert", "decompile", "dump", "lookup">>
K == atoi(IOEnv.STEPS)
\* job = the schedule so far; input = the pair of job descriptions, by number
Pairs == {<<1, 1>>, <<1, 2>>, <<2, 2>>, <<2, 3>>, <<3, 3>>, <<3, 1>>, <<4, 5>>}
Descr(k, s) == [kind |-> Kinds[k], src |-> s, opt |-> TRUE, fmt |-> IF s = 1 THEN "binary" ELSE "code", mal |-> 0]
Count(j) == Len(SelectSeq(job, LAMBDA e : e[1] = j))
AllInit == input \in Pairs /\ job = <<>> /\ fin = FALSE
AllNext == \/ /\ ~fin /\ Len(job) < 2 * K /\ UNCHANGED <<input, fin>>
              /\ \E j \in {1, 2} : Count(j) < K /\ job' = Append(job, <<j, "go">>)
           \/ /\ ~fin /\ Len(job) = 2 * K /\ fin' = TRUE /\ UNCHANGED <<input, job>>
              /\ Emit([jobs |-> <<Descr(input[1], 1), Descr(input[2], 2)>>, sched |-> job])
AllSpec == AllInit /\ [][AllNext]_vars

(*--- random -----------------------------------------------------------------------*)
R(S) == RandomElement(S)
Pick(s) == s[RandomElement(1..Len(s))]
RandJob(z) == [kind |-> Pick(Kinds \o <<"compile", "convert">>), src |-> R(1..3), opt |-> R(1..4) > 1, fmt |-> Pick(<<"binary", "binary", "hex", "code">>),
               mal |-> IF R(1..8) = 1 THEN 1 ELSE 0]
RandSched(n, k) == LET sticky == R(1..3)
                   IN  [i \in 1..k |-> IF sticky = 1 THEN <<((i \div 5) % n) + 1, "go">>
                                       ELSE <<R(1..n), IF R(1..40) = 1 THEN Pick(<<"abort", "break">>) ELSE "go">>]
RandInit == job = 0 /\ input = 0 /\ fin = FALSE
RandNext == /\ ~fin /\ fin' = TRUE /\ UNCHANGED <<job, input>>
            /\ \E n \in {R(2..5)} :
                 \E p \in {[jobs |-> [i \in 1..n |-> RandJob(i)], sched |-> RandSched(n, R(0..70))]} : Emit(p)
RandSpec == RandInit /\ [][RandNext]_vars
=============================================================================
