-------------------------------- MODULE Scan --------------------------------
(***************************************************************************)
(* The three equation lists of the solver.  An equation is                 *)
(*   [cost, l, r]: its complexity and the unknowns on its two sides.       *)
(* ent: the scalar equations of the matrix equations, aux: the defining    *)
(* equations of sums of angles.                                            *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, FiniteSetsExt, SequencesExt, TLC
\* an unsolved unknown counts once for each side it is on
Count(e, U) == Cardinality(e.l \cap U) + Cardinality(e.r \cap U)
Class(e, U) == LET k == Count(e, U) IN IF k > 2 THEN 3 ELSE k
Ordered(list, Cost(_)) == \A i \in 1..Len(list) - 1 : Cost(list[i]) <= Cost(list[i + 1])
Elems(s) == {s[i] : i \in DOMAIN s}
Times(x, s) == Cardinality({i \in DOMAIN s : s[i] = x})

(* Constructive part: sort a sequence of equations into the three lists    *)
Insert(list, x, Cost(_)) ==      \* stable insertion by cost
  LET k == Cardinality({i \in DOMAIN list : Cost(list[i]) <= Cost(x)}) IN
  SubSeq(list, 1, k) \o <<x>> \o SubSeq(list, k + 1, Len(list))
Sorted(seq, U, k, E(_)) ==
  FoldLeft(LAMBDA acc, x : IF Class(E(x), U) = k /\ x \notin Elems(acc) THEN Insert(acc, x, LAMBDA y : E(y).cost) ELSE acc, <<>>, seq)
=============================================================================
