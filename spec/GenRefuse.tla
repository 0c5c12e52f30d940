----------------------------- MODULE GenRefuse -----------------------------
(***************************************************************************)
(* Declarations with one number out of the ordinary.                       *)
(* AllSpec: every attribute of every event of a tree that has all kinds of *)
(* events, times every number around the limits.  RandSpec: random numbers *)
(* to be put in random trees.                                              *)
(***************************************************************************)
EXTENDS HidRefuse, Json, IOUtils, Randomization

VARIABLES x, fin
vars == <<x, fin>>
Emit(rec) == Serialize(ToJson(rec) \o "\n", IOEnv.OUT,
                [format |-> "TXT", charset |-> "UTF-8", openOptions |-> <<"WRITE", "CREATE", "APPEND">>]).exitValue = 0

Val0 == [k |-> "val", way |-> 8, usage |-> <<1, 48>>, size |-> 8, flags |-> <<0, 2>>,
         lmin |-> <<0, 0>>, lmax |-> <<0, 1>>, pmin |-> <<>>, pmax |-> <<>>,
         na |-> <<>>, nak |-> 0, unit |-> Z32, exp |-> Z32, desig |-> Z32, str |-> Z32,
         count |-> 1, align |-> -1]
Tree0 == <<[k |-> "top"], [k |-> "coll", kind |-> <<0, 1>>, usage |-> <<1, 2>>],
           [k |-> "rep", id |-> 1], [Val0 EXCEPT !.lmax = <<0, 7>>], Val0, [Val0 EXCEPT !.usage = <<1, 49>>, !.flags = <<0, 0>>],
           [k |-> "pad", way |-> 8, size |-> 4], [k |-> "end"],
           [k |-> "rep", id |-> 2], [k |-> "coll", kind |-> <<0, 2>>, usage |-> <<>>],
           [Val0 EXCEPT !.nak = 1, !.na = <<<<9, 1, 2>>, <<9, 4, 4>>>>, !.lmin = <<0, 1>>, !.usage = <<1, 57>>],
           [Val0 EXCEPT !.nak = 2, !.na = <<<<7, 4, 9>>>>, !.lmin = <<0, 1>>, !.usage = <<>>],
           [k |-> "end"], [k |-> "align", way |-> 8, b |-> 16], [Val0 EXCEPT !.way = 11, !.flags = <<0, 3>>, !.usage = <<>>],
           [Val0 EXCEPT !.way = 9, !.flags = <<0, 258>>, !.count = 3, !.unit = <<0, 17>>], [k |-> "end"], [k |-> "end"], [k |-> "end"]>>
\* Each direction alone in a report, and padding alone.
Tree1 == <<[k |-> "coll", kind |-> <<0, 1>>, usage |-> <<1, 2>>],
           [k |-> "rep", id |-> 1], [Val0 EXCEPT !.way = 11], [Val0 EXCEPT !.way = 11, !.size = 3, !.usage = <<1, 60>>], [k |-> "end"],
           [k |-> "rep", id |-> 2], [Val0 EXCEPT !.way = 9, !.flags = <<0, 0>>], [k |-> "end"],
           [k |-> "rep", id |-> 3], [Val0 EXCEPT !.exp = Neg(1)], [k |-> "end"],
           [k |-> "rep", id |-> 4], [k |-> "pad", way |-> 11, size |-> 5], [k |-> "end"],
           [k |-> "rep", id |-> 5], [k |-> "coll", kind |-> <<0, 0>>, usage |-> <<>>], [Val0 EXCEPT !.way = 11, !.flags = <<0, 1>>], [k |-> "end"], [k |-> "end"],
           [k |-> "rep", id |-> 6], [k |-> "rep", id |-> 7], Val0, [k |-> "end"], [Val0 EXCEPT !.way = 9], [k |-> "end"], [k |-> "end"]>>
Trees == <<Tree0, Tree1>>
Limits == {<<0, 0, 0>>, <<0, 0, 1>>, <<0, 0, 2>>, <<0, 0, 7>>, <<0, 0, 12>>, <<0, 0, 127>>, <<0, 0, 128>>, <<0, 0, 129>>, <<0, 0, 255>>, <<0, 0, 256>>,
           <<0, 0, 257>>, <<0, 0, 1000>>, <<0, 0, 32767>>, <<0, 0, 32768>>, <<0, 0, 32769>>, <<0, 0, 65535>>, <<0, 1, 0>>, <<0, 1, 1>>, <<0, 256, 0>>,
           <<0, 32767, 65534>>, <<0, 32767, 65535>>, <<0, 32768, 0>>, <<0, 32768, 1>>, <<0, 65535, 65535>>,
           <<1, 0, 0>>, <<1, 0, 1>>, <<1, 0, 5>>, <<1, 0, 8>>, <<1, 1, 48>>, <<1, 9, 3>>, <<1, 32768, 0>>, <<2, 0, 0>>, <<256, 0, 1>>, <<4096, 0, 2>>, <<65535, 65535, 65535>>}
Numbers == {<<s, m[1], m[2], m[3]>> : s \in {0, 1}, m \in Limits} \cup {<<>>}
Cases == {c \in {1, 2} \X (1..Len(Tree1)) \X {"way", "usage", "size", "flags", "lmin", "lmax", "pmin", "pmax", "unit", "exp", "desig", "str", "count", "na", "kind", "id"} :
            c[2] <= Len(Trees[c[1]]) /\ c[3] \in AttrsOf(Trees[c[1]][c[2]])}
AllInit == x \in {<<c[1], c[2], c[3], n>> : c \in Cases, n \in Numbers} /\ fin = FALSE
Tx == Trees[x[1]]
AllNext == /\ ~fin /\ fin' = TRUE /\ x' = x
           /\ Applies(Tx[x[2]], x[3], x[4])
           /\ Emit([es |-> Tx, at |-> x[2], attr |-> x[3], n |-> x[4]])
AllSpec == AllInit /\ [][AllNext]_vars

\* What is possible is what the encoding of the compiled model gives back.
RefuseOk == fin /\ Possible(Tx, x[2], x[3], x[4]) /\ ~Huge(x[3], x[4]) =>
              LET es == PutIn(Tx, x[2], x[3], x[4])
                  p  == Compile(es)
              IN  /\ Decode(EncodeAll(p)).items = p
                  /\ Diff(TreeMeaning(es), Denote(p, "main")) = ""
                  /\ Diff(TreeMeaning(es), Denote(Optimise(p), "main")) = ""

R(S) == RandomElement(S)
RandInit == x = 0 /\ fin = FALSE
AttrSeq == <<"way", "usage", "usage", "size", "size", "flags", "lmin", "lmax", "pmin", "pmax", "unit", "exp", "desig", "str", "count", "count", "na", "kind", "id", "id">>
RandNum(a) == IF a \in {"lmin", "lmax"} /\ R(1..8) = 1 THEN <<>>
              ELSE LET k == R(1..10)
                   IN  IF k <= 4 THEN LET m == R(Limits) IN <<R(0..1), m[1], m[2], m[3]>>
                       ELSE IF k <= 6 THEN <<0, R(1..65535), R(0..65535), R(0..65535)>>
                       ELSE IF k = 7 THEN <<0, 1, R(0..9), R(0..300)>>
                       ELSE IF k = 8 THEN <<1, 0, R({0, R(0..65535)}), R(0..65535)>>
                       ELSE <<0, 0, R({0, R(0..65535)}), R(0..65535)>>
RandNext == /\ ~fin /\ fin' = TRUE /\ x' = x
            /\ \E a \in {AttrSeq[R(1..Len(AttrSeq))]} : Emit([attr |-> a, n |-> RandNum(a), pos |-> R(0..1000)])
RandSpec == RandInit /\ [][RandNext]_vars
=============================================================================
