------------------------------ MODULE GenEdit ------------------------------
(***************************************************************************)
(* Histories of building, editing, looking at and compiling trees.         *)
(* HistSpec: every history of MAXEV operations on a few objects.           *)
(* RandEdit: random longer ones.  (es is the history, nest the objects.)   *)
(***************************************************************************)
EXTENDS GenTree, HidEdit

Op(op, cc, o, i, opt) == [op |-> op, ev |-> Top, mem |-> <<>>, c |-> cc, o |-> o, i |-> i, opt |-> opt]
MkOp(e, mem) == [Op("new", 0, 0, 0, 0) EXCEPT !.ev = e, !.mem = mem]
Do(p) == es' = Append(es, p) /\ nest' = Apply(nest, p)
Conts == {x \in 1..Len(nest) : IsCont(nest[x].ev)}
CanAdd(cc, o) == cc \notin Within(nest, o) /\ Len(Flat(nest, cc)) + Len(Flat(nest, o)) < 60

\* At the end of a history everything is looked at.
Looks(objs) ==
    LET one(x) == IF IsCont(objs[x].ev)
                  THEN <<Op("len", x, 0, 0, 0), Op("iter", x, 0, 0, 0), Op("get", x, 0, -1, 0), Op("get", x, 0, Len(objs[x].mem), 0),
                         Op("slice", x, 6, 0, 2), Op("slice", x, -1, -4, 1), Op("slice", x, -9, 9, -1),
                         Op("visit", x, 0, 0, 0), Op("compile", x, 0, 0, 0), Op("compile", x, 0, 0, 1)>>
                  ELSE <<>>
    IN  FoldLeft(LAMBDA acc, x : acc \o one(x), <<>>, [x \in 1..Len(objs) |-> x])

(*--- every short history ---------------------------------------------------*)
Start == <<MkOp(Coll(<<0, 1>>, <<1, 2>>), <<>>), MkOp(V(X, 3), <<>>), MkOp(V(B1, 8), <<>>), MkOp(Coll(<<0, 0>>, X), <<3, 2>>),
           MkOp(Rep(0), <<2>>)>>
HistInit == /\ es = Start /\ nest = FoldLeft(Apply, <<>>, Start) /\ nv = 0 /\ prof = [ids |-> FALSE] /\ fin = FALSE
HistNext ==
    \/ /\ nv < MaxEv /\ ~fin /\ nv' = nv + 1 /\ UNCHANGED <<prof, fin>>
       /\ \/ \E cc \in Conts : \E o \in 2..5 : CanAdd(cc, o) /\ Do(Op("append", cc, o, 0, 0))
          \/ \E cc \in Conts : Do(Op("pop", cc, 0, 0, 0))
          \/ Do(Op("compile", 1, 0, 0, 1))
    \/ /\ nv = MaxEv /\ ~fin /\ fin' = TRUE /\ UNCHANGED <<nv, prof, nest>>
       /\ es' = es \o Looks(nest)
       /\ Emit([ops |-> es'])
HistSpec == HistInit /\ [][HistNext]_tvars

\* The objects are trees; appending puts a part last and popping undoes it.
Inside(s) == SubSeq(s, 2, Len(s) - 1)
EditOk == \A cc \in Conts :
             /\ \A x \in Within(nest, cc) : x = cc \/ cc \notin Within(nest, x)
             /\ LET f == Flat(nest, cc)
                    t == TreeMeaning(f)
                IN  /\ t.bad = ""
                    /\ Len(Visits(nest, cc)) = Len(f)
                    /\ Uniform(nest, cc) => Diff(t, Denote(Compile(f), "main")) = ""
             /\ \A o \in 1..Len(nest) : cc \notin Within(nest, o) =>
                  LET n2 == Add(nest, cc, o)
                  IN  Inside(Flat(n2, cc)) = Inside(Flat(nest, cc)) \o Flat(nest, o) /\ Del(n2, cc) = nest

(*--- random histories --------------------------------------------------------*)
PrevVal == LET S == {i \in 1..Len(nest) : nest[i].ev.k = "val"} IN IF S = {} THEN Val0 ELSE nest[CHOOSE i \in S : \A j \in S : j <= i].ev
RandCont(x) == LET w == R(1..10)
            IN  IF w <= 2 THEN Top ELSE IF w <= 5 THEN Rep(IF prof.ids THEN Pick(<<1, 2, 3, 255>>) ELSE 0) ELSE RandColl(0)
RandElem(x) == LET w == R(1..20)
            IN  IF w <= 2 THEN Pad(Pick(Ways), R(1..17)) ELSE IF w <= 4 THEN Aln(Pick(Ways), Pick(<<8, 16, 3, 4>>))
                ELSE IF w <= 6 THEN FreshVal(0) ELSE RandVal(PrevVal)
RandMem(x) == IF nest = <<>> THEN <<>> ELSE [i \in 1..Pick(<<0, 0, 1, 2, 2, 3, 4>>) |-> R(1..Len(nest))]
Total(mem) == FoldLeft(LAMBDA acc, m : acc + Len(Flat(nest, m)), 0, mem)
EditInit == es = <<>> /\ nest = <<>> /\ nv = -1 /\ prof = [ids |-> FALSE, len |-> 0] /\ fin = FALSE
EditProf == /\ nv = -1 /\ nv' = 0 /\ UNCHANGED <<es, nest, fin>>
            /\ \E p \in {[ids |-> R(1..2) = 1, len |-> R(4..MaxEv)]} : prof' = p
EditStep ==
    /\ nv >= 0 /\ nv < prof.len /\ nv' = nv + 1 /\ UNCHANGED <<prof, fin>>
    /\ \E r \in {[w |-> R(1..100), k |-> RandCont(0), mem |-> RandMem(0), v |-> RandElem(0)]} :
         IF r.w <= 25 \/ nest = <<>> THEN Do(MkOp(r.v, <<>>))
         ELSE IF r.w <= 42 \/ Conts = {} THEN Do(MkOp(r.k, IF Total(r.mem) < 50 THEN r.mem ELSE <<>>))
         ELSE \E q \in {[c |-> R(Conts), o |-> R(1..Len(nest)), i |-> R(-4..4), to |-> R(-5..6), step |-> Pick(<<1, 1, 2, 3, -1, -2>>), opt |-> R(0..1)]} :
                IF r.w <= 72 THEN IF CanAdd(q.c, q.o) THEN Do(Op("append", q.c, q.o, 0, 0)) ELSE Do(Op("visit", q.c, 0, 0, 0))
                ELSE IF r.w <= 82 THEN Do(Op("pop", q.c, 0, 0, 0))
                ELSE IF r.w <= 85 THEN Do(Op("len", q.c, 0, 0, 0))
                ELSE IF r.w <= 88 THEN Do(Op("get", q.c, 0, q.i, 0))
                ELSE IF r.w <= 89 THEN Do(Op("slice", q.c, q.to, q.i, q.step))
                ELSE IF r.w <= 90 THEN Do(Op("iter", q.c, 0, 0, 0))
                ELSE IF r.w <= 92 THEN Do(Op("visit", q.c, 0, 0, 0))
                ELSE Do(Op("compile", q.c, 0, 0, q.opt))
EditEnd == /\ nv >= 0 /\ nv = prof.len /\ ~fin /\ fin' = TRUE /\ UNCHANGED <<nv, prof, nest>>
           /\ es' = es \o Looks(nest) /\ Emit([ops |-> es'])
RandEdit == EditInit /\ [][EditProf \/ EditStep \/ EditEnd]_tvars
=============================================================================
