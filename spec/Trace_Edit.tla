----------------------------- MODULE Trace_Edit -----------------------------
(***************************************************************************)
(* C21.  Record r: the operations r.ops on descriptor objects and what     *)
(* each of them gave, r.obs: rs (numbers of objects, or visits), b (bytes) *)
(* and err.  The operations are replayed on the model, which says what     *)
(* every look at the objects must have shown.                              *)
(***************************************************************************)
EXTENDS HidEdit, TraceBase

BytesBad(objs, p, ob) ==
    IF ob.err # "" THEN "not compiled: " \o ob.err
    ELSE LET d == Decode(ob.b)
         IN  IF d.bad # "" THEN d.bad ELSE Diff(TreeMeaning(Flat(objs, p.c)), Denote(d.items, "main"))
OpBad(objs, p, ob) ==
    CASE p.op = "new"     -> IF ob.err # "" THEN "not made: " \o ob.err ELSE ""
      [] p.op = "append"  -> IF ob.err # "" THEN "not appended: " \o ob.err ELSE ""
      [] p.op = "pop"     -> IF ob.err # "" /\ objs[p.c].mem # <<>> THEN "not removed: " \o ob.err ELSE ""
      [] p.op = "len"     -> IF ob.err # "" \/ ob.rs # <<Len(objs[p.c].mem)>> THEN "wrong length" ELSE ""
      [] p.op = "iter"    -> IF ob.err # "" \/ ob.rs # objs[p.c].mem THEN "iteration gives other members" ELSE ""
      [] p.op = "get"     -> LET x == At(objs, p.c, p.i)
                             IN  IF x = 0 THEN IF ob.err = "" THEN "member at an index there is not" ELSE ""
                                 ELSE IF ob.err # "" \/ ob.rs # <<x>> THEN "another member at this index" ELSE ""
      [] p.op = "slice"   -> IF ob.err # "" \/ ob.rs # ListSlice(objs[p.c].mem, p.i, p.o, p.opt) THEN "other members in this slice" ELSE ""
      [] p.op = "visit"   -> IF ob.err # "" THEN "not visited: " \o ob.err
                             ELSE IF ob.rs # Visits(objs, p.c) THEN "visited otherwise" ELSE ""
      [] p.op = "compile" -> IF Uniform(objs, p.c) THEN BytesBad(objs, p, ob) ELSE ""

RECURSIVE Go(_, _, _)
Go(r, objs, i) == IF i > Len(r.ops) THEN ""
                  ELSE LET x == OpBad(objs, r.ops[i], r.obs[i])
                       IN  IF x # "" THEN "operation " \o ToString(i) \o " (" \o r.ops[i].op \o "): " \o x
                           ELSE Go(r, Apply(objs, r.ops[i]), i + 1)
Verdict(r) == Go(r, <<>>, 1)
Info(r) == {"histories"} \cup {r.ops[i].op : i \in 1..Len(r.ops)}

VARIABLES l, bad, info
Init == l = 0 /\ bad = <<>> /\ info = NoInfo
Next == /\ l < Len(Trace)
        /\ l' = l + 1
        /\ LET r == Trace[l + 1]
               v == Verdict(r)
           IN  /\ bad' = IF v = "" THEN bad ELSE Append(bad, <<r.id, v>>)
               /\ info' = Bump(info, Info(r))
        /\ (l + 1 < Len(Trace) \/ WriteVerdict(l + 1, bad', info'))
TraceSpec == Init /\ [][Next]_<<l, bad, info>>
=============================================================================
