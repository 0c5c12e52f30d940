----------------------------- MODULE HidRefuse -----------------------------
(***************************************************************************)
(* Which numbers a declaration can carry.  A declaration is a tree es in   *)
(* which attribute attr of event at is replaced by the number n (as in     *)
(* HidNum; <<>> stands for None).  Impossible: no descriptor declares it.  *)
(***************************************************************************)
EXTENDS HidCompile, HidNum

AttrsOf(e) == CASE e.k = "val"   -> {"way", "usage", "size", "flags", "lmin", "lmax", "pmin", "pmax", "unit", "exp", "desig", "str", "count", "na"}
              [] e.k = "coll"  -> {"kind", "usage"}
              [] e.k = "rep"   -> {"id"}
              [] e.k = "pad"   -> {"way", "size"}
              [] e.k = "align" -> {"way"}
              [] OTHER         -> {}
Carrier(attr) == CASE attr \in {"usage", "na"} -> <<Local, 0>>
                   [] attr = "flags" -> <<Main, 8>>
                   [] attr = "kind"  -> <<Main, 10>>
                   [] attr = "lmin"  -> <<Global, 1>>
                   [] attr = "lmax"  -> <<Global, 2>>
                   [] attr = "pmin"  -> <<Global, 3>>
                   [] attr = "pmax"  -> <<Global, 4>>
                   [] attr = "exp"   -> <<Global, 5>>
                   [] attr = "unit"  -> <<Global, 6>>
                   [] attr = "size"  -> <<Global, 7>>
                   [] attr = "id"    -> <<Global, 8>>
                   [] attr = "count" -> <<Global, 9>>
                   [] attr = "desig" -> <<Local, 3>>
                   [] attr = "str"   -> <<Local, 7>>
Applies(e, attr, n) == /\ attr \in AttrsOf(e)
                       /\ attr = "na" => e.nak = 1 /\ e.na # <<>>
                       /\ n = <<>> => attr \in {"lmin", "lmax"} /\ (attr = "lmin" => e.na = <<>>)

\* Does the event declare the attribute at all?
Declares(e, attr) ==
    IF e.k # "val" THEN TRUE
    ELSE IF FConst(e.flags) THEN attr \in {"way", "size", "count", "flags"}
    ELSE IF e.na # <<>> THEN attr \notin {"lmax", "pmin", "pmax"}
    ELSE TRUE
IsWay(n) == n \in {<<0, 0, 0, 8>>, <<0, 0, 0, 9>>, <<0, 0, 0, 11>>}
\* Fields directly in the report that event at opens.
RECURSIVE HasField(_, _, _)
HasField(es, i, nest) ==
    IF i > Len(es) THEN FALSE
    ELSE LET e == es[i] IN
         CASE e.k \in {"top", "coll", "rep"} -> HasField(es, i + 1, Append(nest, e.k))
           [] e.k = "end" -> IF nest = <<>> THEN FALSE ELSE HasField(es, i + 1, SubSeq(nest, 1, Len(nest) - 1))
           [] OTHER -> (("rep" \notin Range(nest)) /\ e.k \in {"val", "pad"}) \/ HasField(es, i + 1, nest)
\* A signed number whose sum with k - 1 is too large.
Overflow(n, k) == n[1] = 0 /\ n[3] * 65536 + n[4] > 2147483647 - (k - 1)

Impossible(es, at, attr, n) ==
    LET e == es[at]
    IN  IF ~Declares(e, attr) THEN FALSE
        ELSE IF n = <<>> THEN TRUE
        ELSE IF attr = "way" THEN ~IsWay(n) /\ (e.k = "align" => e.b > 1) /\ (e.k = "pad" => e.size > 0)
        ELSE IF ~InRange(Carrier(attr)[1], Carrier(attr)[2], n) THEN TRUE
        ELSE IF attr = "id" THEN (n[3] # 0 \/ n[4] > 255) /\ HasField(es, at + 1, <<>>)
        ELSE attr = "lmin" /\ e.na # <<>> /\ Overflow(n, NamedLen(e))

(*--- what a possible one declares --------------------------------------------*)
Possible(es, at, attr, n) ==
    LET e == es[at]
    IN  /\ n # <<>> /\ Declares(e, attr) /\ ~Impossible(es, at, attr, n)
        /\ attr # "way"
        /\ attr = "id" => e.id # 0 /\ n[3] = 0 /\ n[4] \in 1..255
        /\ attr = "flags" => e.nak = 0
        \* Usage page 0 is undefined: there is no telling what such a usage means.
        /\ attr \in {"usage", "na"} => n[3] # 0
Huge(attr, n) == \/ attr = "size" /\ n[3] # 0
                 \/ attr = "count" /\ (n[3] # 0 \/ n[4] > MaxCount)
PutIn(es, at, attr, n) ==
    LET w == NumWord(n)
        e == es[at]
        x == CASE attr = "na" -> [e EXCEPT !.na = Append(@, <<w[1], w[2], w[2]>>)]
               [] attr = "usage" -> [e EXCEPT !.usage = IF e.k = "val" /\ w = Z32 THEN <<>> ELSE w]
               [] attr \in {"size", "count", "id"} -> [e EXCEPT ![attr] = w[2]]
               [] OTHER -> [e EXCEPT ![attr] = w]
    IN  [es EXCEPT ![at] = x]
=============================================================================
