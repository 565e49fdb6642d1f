------------------------------- MODULE SumsMC -------------------------------
(* Sums met in any order, of joints and of earlier sums of other joints.    *)
EXTENDS Sums
CONSTANTS NJ, MaxReg
VARIABLES reg
Joints == {<<j>> : j \in 1..NJ}
Disjoint(A) == \A x, y \in A : x # y => Elems(x) \cap Elems(y) = {}
Init == reg = <<>>
Next == /\ Len(reg) < MaxReg
        /\ \E A \in SUBSET (Joints \cup Names(reg)) : Cardinality(A) \in {2, 3} /\ Disjoint(A) /\ reg' = Meet(reg, A)
Spec == Init /\ [][Next]_reg
Good == Stated(reg) /\ OneDefinition(reg) /\ OneName(reg)
\* nothing is forgotten or renamed
Kept == [][Len(reg) <= Len(reg') /\ SubSeq(reg', 1, Len(reg)) = reg]_reg
=============================================================================
