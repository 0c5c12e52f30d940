----------------------------- MODULE GenExpect -----------------------------
(***************************************************************************)
(* Expected texts.  CmpSpec: the comparing machine on every short expected *)
(* sequence and every split of every short output; PlanSpec: ways of       *)
(* making and laying out expected texts, to be applied to descriptors.     *)
(***************************************************************************)
EXTENDS GenText, HidExpect

(*--- the machine accepts exactly the right bytes -------------------------------*)
Bits(k) == UNION {[1..j -> {1, 2}] : j \in 0..k}
CmpStart == /\ \E e \in Bits(4) : x = [exp |-> e, got |-> <<>>, s |-> CmpInit]
            /\ fin = FALSE
CmpNext == /\ ~fin
           /\ \/ /\ Len(x.got) < 5
                 /\ \E ch \in Bits(3) \ {<<>>} :
                      x' = [x EXCEPT !.got = @ \o ch, !.s = CmpTake(x.exp, @, ch)]
                 /\ fin' = fin
              \/ x' = [x EXCEPT !.s = CmpClose(x.exp, @)] /\ fin' = TRUE
CmpSpec == CmpStart /\ [][CmpNext]_vars
AcceptOk == fin => (~x.s.failed <=> x.exp = x.got)
PrefixOk == (~fin /\ ~x.s.failed) => x.got = SubSeq(x.exp, 1, x.s.at)

(*--- plans -----------------------------------------------------------------------*)
MutSeq == SetToSeq(Mutations)
PlanMut(z) == <<Pick(MutSeq), R(0..400), Pick(<<0, 192, 255, R(0..255), R(0..255), R(0..255)>>)>>
Gaps3(z) == [i \in 1..R(1..4) |-> IF R(1..2) = 1 THEN RandComment(i) ELSE Pick(<<Txt(""), Txt(" "), Txt("~"), <<13, 10>>>>)]
PlanInit == x = 0 /\ fin = FALSE
PlanNext == /\ ~fin /\ fin' = TRUE /\ x' = x
            /\ \E p \in {[muts |-> <<<<"same", 0, 1>>>> \o [i \in 1..9 |-> PlanMut(i)], gaps |-> [i \in 1..10 |-> Gaps3(i)], last |-> R(0..1), up |-> R(0..1)]} : Emit(p)
PlanSpec == PlanInit /\ [][PlanNext]_vars
=============================================================================
