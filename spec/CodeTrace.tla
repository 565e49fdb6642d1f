----------------------------- MODULE CodeTrace -----------------------------
(* Outcomes of generated programs at poses against Code.                    *)
(* guarded: the language stops at an undefined operation (Python).          *)
EXTENDS Code, Json, IOUtils, TLC
VARIABLES it, bad
Items == JsonDeserialize(IOEnv.TRACE).items
I == Items[it]
\* every row of the set uses each unknown once, and every version of the equations is used
Shape(m) ==
  (IF m.valid = 0 THEN {"not a valid program"} ELSE {})
  \cup (IF m.valid = 1 /\ \E r \in DOMAIN m.rows : Len(m.rows[r]) # m.width THEN {"a row without a version of every solved unknown"} ELSE {})
Faults(m) == Shape(m) \cup (IF m.valid = 0 THEN {}
   ELSE {"pose " \o ToString(k) \o ": " \o m.outcomes[k].kind : k \in {k \in DOMAIN m.poses : ~Good(m, m.poses[k], m.outcomes[k], m.guarded)}})
Init == it = 1 /\ bad = <<>>
Next == /\ it <= Len(Items) /\ it' = it + 1
        /\ LET b == Faults(I) IN bad' = IF b = {} THEN bad ELSE Append(bad, [it |-> it, clauses |-> SetToSeq(b)])
Spec == Init /\ [][Next]_<<it, bad>>
Report == it > Len(Items) => PrintT(<<"VERDICT", ToJson([items |-> Len(Items), bad |-> bad])>>)
=============================================================================
