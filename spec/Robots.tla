------------------------------- MODULE Robots -------------------------------
(***************************************************************************)
(* A mechanism description: six rows [twist, length, offset, angle], each  *)
(* entry given by the symbols in it; a type per row; unknowns in order;    *)
(* parameters and their values.  Symbols are positive numbers.             *)
(* row = [al, a, d, th : set of symbols]                                   *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt
Elems(s) == {s[i] : i \in DOMAIN s}
Unk(m) == {m.unknowns[i].sym : i \in DOMAIN m.unknowns}
Row(m, i) == LET r == m.rows[i] IN Elems(r.al) \cup Elems(r.a) \cup Elems(r.d) \cup Elems(r.th)
All(m) == UNION {Row(m, i) : i \in DOMAIN m.rows}
Revolute(m, i)  == Elems(m.rows[i].th) \cap Unk(m)
Prismatic(m, i) == Elems(m.rows[i].d) \cap Unk(m)
Joint(m, i) == Revolute(m, i) \cup Prismatic(m, i)
RowOf(m, s) == {i \in DOMAIN m.rows : s \in Joint(m, i)}

Faults(m) ==
  (IF Len(m.rows) # 6 \/ m.width # 4 THEN {"not six rows of four"} ELSE {})
  \cup (IF Len(m.types) # 6 \/ \E i \in DOMAIN m.types : m.types[i] \notin {0, 1} THEN {"not one joint type per row"} ELSE {})
  \cup (IF \E i \in DOMAIN m.rows : (Elems(m.rows[i].al) \cup Elems(m.rows[i].a)) \cap Unk(m) # {} THEN {"a joint variable as twist or length"} ELSE {})
  \cup (IF \E i \in DOMAIN m.rows : Cardinality(Joint(m, i)) > 1 THEN {"two joint variables in a row"} ELSE {})
  \cup (IF \E i \in DOMAIN m.rows \cap DOMAIN m.types :
             (Revolute(m, i) # {} /\ m.types[i] # 1) \/ (Prismatic(m, i) # {} /\ m.types[i] # 0) THEN {"joint type disagrees with the row"} ELSE {})
  \cup (IF \E s \in Unk(m) : Cardinality(RowOf(m, s)) # 1 THEN {"an unknown that is not the variable of one joint"} ELSE {})
  \cup (IF Cardinality(Unk(m)) # Len(m.unknowns) THEN {"an unknown twice"} ELSE {})
  \cup (IF \E j \in DOMAIN m.unknowns : m.unknowns[j].n # j THEN {"joint number"} ELSE {})
  \cup (IF \E j, k \in DOMAIN m.unknowns : j < k /\ \E p \in RowOf(m, m.unknowns[j].sym), q \in RowOf(m, m.unknowns[k].sym) : p >= q THEN {"unknowns not in the order of the joints"} ELSE {})
  \cup (IF \E j \in DOMAIN m.unknowns : m.unknowns[j].solved = 1 \/ m.unknowns[j].nsol # 0 THEN {"an unknown that is solved already"} ELSE {})
  \cup (IF \E j \in DOMAIN m.unknowns, i \in DOMAIN m.rows :
             m.unknowns[j].sym \in Joint(m, i) /\ m.unknowns[j].letter = (IF m.types[i] = 1 THEN "d" ELSE "th") THEN {"name of the variable disagrees with the joint"} ELSE {})
  \cup (IF All(m) \ (Unk(m) \cup Elems(m.params)) # {} THEN {"a symbol of the table that is no parameter"} ELSE {})
  \cup (IF Elems(m.params) \cap Unk(m) # {} THEN {"a parameter that is an unknown"} ELSE {})
  \cup (IF Cardinality(Elems(m.params)) # Len(m.params) THEN {"a parameter twice"} ELSE {})
  \cup (IF Len(m.valued) > 0 /\ (Elems(m.params) \cap All(m)) \ Elems(m.valued) # {} THEN {"a parameter without a value"} ELSE {})
  \cup (IF m.numeric = 0 THEN {"a value that is no number"} ELSE {})
  \cup (IF Unk(m) = {} THEN {"no joint"} ELSE {})
=============================================================================
