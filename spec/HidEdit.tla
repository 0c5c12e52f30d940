------------------------------ MODULE HidEdit ------------------------------
(***************************************************************************)
(* Trees as editable objects.  The state is the sequence of objects made   *)
(* so far, each with its own visit event (that of a leaf, or the opening   *)
(* one of a container) and, for a container, its members: numbers of other *)
(* objects.  One object may be a member of several containers, or several  *)
(* times of one; containers are edited at any time, compilations included. *)
(***************************************************************************)
EXTENDS HidTree

IsCont(e) == e.k \in {"top", "coll", "rep"}
Obj(e, mem) == [ev |-> e, mem |-> mem]

\* Objects that o is made of, itself included.
RECURSIVE Within(_, _)
Within(objs, o) == {o} \cup UNION {Within(objs, objs[o].mem[i]) : i \in 1..Len(objs[o].mem)}

\* The visit events of o as it is now.
RECURSIVE Flat(_, _)
Flat(objs, o) ==
    IF ~IsCont(objs[o].ev) THEN <<objs[o].ev>>
    ELSE <<objs[o].ev>> \o FoldLeft(LAMBDA acc, m : acc \o Flat(objs, m), <<>>, objs[o].mem) \o <<[k |-> "end"]>>

\* What a visitor is shown: <<1, o>> enter, <<2, o>> leave, <<3, o>> element.
RECURSIVE Visits(_, _)
Visits(objs, o) ==
    IF ~IsCont(objs[o].ev) THEN <<<<3, o>>>>
    ELSE <<<<1, o>>>> \o FoldLeft(LAMBDA acc, m : acc \o Visits(objs, m), <<>>, objs[o].mem) \o <<<<2, o>>>>

(*--- operations: [op, ev, mem, c, o, i, opt] ------------------------------*)
New(objs, e, mem) == Append(objs, Obj(e, mem))
Add(objs, cc, o) == [objs EXCEPT ![cc].mem = Append(@, o)]
Del(objs, cc) == [objs EXCEPT ![cc].mem = IF @ = <<>> THEN @ ELSE SubSeq(@, 1, Len(@) - 1)]
Apply(objs, p) == CASE p.op = "new"    -> New(objs, p.ev, p.mem)
                    [] p.op = "append" -> Add(objs, p.c, p.o)
                    [] p.op = "pop"    -> Del(objs, p.c)
                    [] OTHER           -> objs
\* The member at index i, counted from the end when negative; none: 0.
At(objs, cc, i) == LET mem == objs[cc].mem
                       k   == IF i < 0 THEN Len(mem) + i ELSE i
                   IN  IF k \in 0..(Len(mem) - 1) THEN mem[k + 1] ELSE 0

\* Either there are no report IDs or all values have one.
RECURSIVE ValIds(_, _, _)
ValIds(objs, o, rid) ==
    LET e == objs[o].ev
    IN  IF e.k \in {"val", "pad", "align"} THEN {rid}
        ELSE UNION {ValIds(objs, objs[o].mem[i], IF e.k = "rep" THEN e.id ELSE rid) : i \in 1..Len(objs[o].mem)}
HasIds(objs, o) == \E x \in Within(objs, o) : objs[x].ev.k = "rep" /\ objs[x].ev.id # 0
Uniform(objs, o) == HasIds(objs, o) => 0 \notin ValIds(objs, o, 0)
=============================================================================
