------------------------------ MODULE SumsTrace ------------------------------
(* Recorded registries of sums of angles against Sums: one state per call   *)
(* (or one per run).                                                        *)
(*   reg: the defining equations recorded; unk: names of all unknowns that  *)
(*   are angles; new: names not among the joints; left: arguments of sines  *)
(*   and cosines that are still sums, after replacement; met: the sums in   *)
(*   the expression given to the code, as sets of names (a run: not known). *)
EXTENDS Sums, Json, IOUtils
VARIABLES it, k, bad
Items == JsonDeserialize(IOEnv.TRACE).items
I == Items[it]
Seq1(s) == [i \in 1..Len(s) |-> s[i]]
Reg(st) == TLCEval([i \in 1..Len(st.reg) |-> [name |-> Seq1(st.reg[i].name), def |-> {Seq1(x) : x \in Elems(st.reg[i].def)}]])
Unk(st) == TLCEval([i \in 1..Len(st.unk) |-> Seq1(st.unk[i])])
NoReg == <<>>
Broken(st, prev, first) ==
  LET reg == Reg(st) unk == Unk(st)
      pr == IF first THEN NoReg ELSE Reg(prev)
      sums == {x \in Elems(unk) : Len(x) > 1}
      met == {{Seq1(x) : x \in Elems(A)} : A \in Elems(st.met)}
      bases == TLCEval([x \in sums |-> BaseOf(reg, x)])
  IN (IF Cardinality(Elems(unk)) # Len(unk) THEN {"an unknown with the name of another"} ELSE {})
     \cup (IF ~OneDefinition(reg) THEN {"a defining equation recorded twice"} ELSE
           IF ~Stated(reg) THEN {"the name does not state the angles summed"} ELSE {})
     \cup (IF Names(reg) # sums THEN {"unknowns and defining equations differ"} ELSE {})
     \cup (IF \E x, y \in sums : x # y /\ bases[x] = bases[y] THEN {"two unknowns for one sum"} ELSE {})
     \cup (IF Len(st.left) > 0 THEN {"a sum left in place"} ELSE {})
     \cup (IF ~first /\ (Len(reg) < Len(pr) \/ SubSeq(reg, 1, Len(pr)) # pr \/ Len(unk) < Len(Unk(prev)) \/ SubSeq(unk, 1, Len(Unk(prev))) # Unk(prev))
           THEN {"an earlier unknown or definition changed"} ELSE {})
     \cup (IF ~first /\ st.known = 1 /\ Len(reg) > Len(pr) /\ \E i \in Len(pr) + 1..Len(reg) :
                ~\E A \in met : UNION {BaseOf(reg, x) : x \in A} = BaseOf(reg, reg[i].name)
           THEN {"an unknown for a sum that was not there"} ELSE {})
Init == it = 1 /\ k = 1 /\ bad = <<>>
Next == /\ it <= Len(Items)
        /\ IF k > Len(I.states) THEN it' = it + 1 /\ k' = 1 /\ UNCHANGED bad
           ELSE /\ k' = k + 1 /\ it' = it
                /\ LET b == Broken(I.states[k], I.states[IF k > 1 THEN k - 1 ELSE 1], k = 1)
                   IN bad' = IF b = {} THEN bad ELSE Append(bad, [it |-> it, k |-> k, clauses |-> SetToSeq(b)])
Spec == Init /\ [][Next]_<<it, k, bad>>
Report == it > Len(Items) => PrintT(<<"VERDICT", ToJson([items |-> Len(Items), bad |-> bad])>>)
=============================================================================
