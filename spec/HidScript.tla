----------------------------- MODULE HidScript -----------------------------
(***************************************************************************)
(* Scripts: what a generated script writes for a tree, as the arguments it *)
(* passes, and what the constructors make of them.  An argument that has   *)
(* its default value may be left out; Rebuild(Script(es)) must declare the *)
(* same as es.  Also which text stands for a usage in a script.            *)
(***************************************************************************)
EXTENDS HidTree, HutTable

\* The constructor of a value: arguments left out get their defaults.
Default == [flags |-> <<0, 2>>, lmin |-> <<0, 1>>, lmax |-> <<>>, pmin |-> <<>>, pmax |-> <<>>, na |-> <<>>, nak |-> 0,
            unit |-> Z32, exp |-> Z32, desig |-> Z32, str |-> Z32, count |-> 1, align |-> -1]
Rebuilt(a) == [k |-> "val", way |-> a.way, usage |-> a.usage, size |-> a.size] @@ [x \in (DOMAIN a) \ {"way", "usage", "size"} |-> a[x]] @@ Default
\* The arguments of a value that a script has to pass.
ScriptArgs(v) ==
    LET named == v.na # <<>>
        need(x) == CASE x = "lmax" -> ~named /\ v.lmax # <<>>
                     [] x \in {"pmin", "pmax"} -> ~named /\ ~(VPMin(v, v.lmin) = v.lmin /\ VPMax(v, v.lmax) = v.lmax) /\ v[x] # <<>>
                     [] x = "flags" -> v.flags # Default.flags /\ ~(named /\ ClearVar(v.flags) = Z32)
                     [] x = "align" -> v.align # -1 /\ v.align # (IF v.size < 8 THEN v.size ELSE 8)
                     [] OTHER -> v[x] # Default[x]
    IN  [x \in {"way", "usage", "size"} \cup {y \in DOMAIN Default : need(y)} |-> v[x]]
Script(es) == [i \in 1..Len(es) |-> IF es[i].k = "val" THEN [k |-> "args", args |-> ScriptArgs(es[i])] ELSE es[i]]
Rebuild(sc) == [i \in 1..Len(sc) |-> IF sc[i].k = "args" THEN Rebuilt(sc[i].args) ELSE sc[i]]

\* How a usage may be written: by name when known, else as a number ("#").
UsageText(w) == IF Known(w) THEN Dotted(w) ELSE "#"
=============================================================================
