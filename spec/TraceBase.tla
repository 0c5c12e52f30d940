----------------------------- MODULE TraceBase -----------------------------
(***************************************************************************)
(* Reading recorded traces and writing verdicts.  A trace spec defines     *)
(* Verdict(r) ("" or the clause that record r breaks) and Info(r) (a set   *)
(* of counter names) and instantiates the machine below.                   *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
WriteVerdict(n, bad, info) ==
    Serialize(ToJson([n |-> n, bad |-> bad, info |-> info]) \o "\n", IOEnv.VERDICT,
        [format |-> "TXT", charset |-> "UTF-8", openOptions |-> <<"WRITE", "CREATE", "TRUNCATE_EXISTING">>]).exitValue = 0
Bump(info, names) == [k \in DOMAIN info \cup names |->
                        (IF k \in DOMAIN info THEN info[k] ELSE 0) + (IF k \in names THEN 1 ELSE 0)]
NoInfo == [k \in {} |-> 0]
=============================================================================
