-------------------------------- MODULE Sums --------------------------------
(***************************************************************************)
(* The registry of sums of joint angles.  A sum unknown has a name (the    *)
(* sequence of joint numbers in its subscript) and a definition (the       *)
(* unknowns it is the sum of, which may themselves be sums).               *)
(* reg: sequence of [name, def]: def is a set of names of size 2 or 3.     *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, FiniteSetsExt, SequencesExt, TLC
Elems(s) == {s[i] : i \in DOMAIN s}
Names(reg) == {reg[i].name : i \in DOMAIN reg}
DefOf(reg, nm) == reg[CHOOSE i \in DOMAIN reg : reg[i].name = nm].def
\* the joints a name stands for by its definition
RECURSIVE Base(_, _, _)
Base(reg, nm, depth) ==
  IF nm \notin Names(reg) THEN Elems(nm)
  ELSE IF depth = 0 THEN {}
  ELSE UNION {Base(reg, x, depth - 1) : x \in DefOf(reg, nm)}
BaseOf(reg, nm) == Base(reg, nm, Len(reg))
\* how many joints the definition adds up (more than in Base: one of them twice)
RECURSIVE Weight(_, _, _)
Weight(reg, nm, depth) ==
  IF nm \notin Names(reg) THEN 1
  ELSE IF depth = 0 THEN 0 ELSE FoldSet(LAMBDA x, a : a + Weight(reg, x, depth - 1), 0, DefOf(reg, nm))

Stated(reg)    == \A i \in DOMAIN reg : /\ BaseOf(reg, reg[i].name) = Elems(reg[i].name)
                                        /\ Weight(reg, reg[i].name, Len(reg)) = Len(reg[i].name)
                                        /\ Len(reg[i].name) = Cardinality(Elems(reg[i].name))
OneDefinition(reg) == \A i, j \in DOMAIN reg : i # j => reg[i].name # reg[j].name
OneName(reg)   == \A i, j \in DOMAIN reg : BaseOf(reg, reg[i].name) = BaseOf(reg, reg[j].name) => reg[i].name = reg[j].name

(* Constructive part: meeting the sum of a set of names                    *)
NameFor(A) == SetToSortSeq(UNION {Elems(x) : x \in A}, <)
Meet(reg, A) == IF NameFor(A) \in Names(reg) THEN reg ELSE Append(reg, [name |-> NameFor(A), def |-> A])
=============================================================================
