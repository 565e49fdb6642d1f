------------------------------- MODULE FkTrace ------------------------------
(* What a generated forward-kinematics program computes, against the pose   *)
(* of the mechanism: an item has poses [links, T] (T a 4x4 matrix).         *)
EXTENDS Fixed, FiniteSets, FiniteSetsExt, Json, IOUtils
CONSTANTS ROT, LEN
VARIABLES it, bad
Items == JsonDeserialize(IOEnv.TRACE).items
I == Items[it]
Good(p) == LET T == Fk(p.links)
  IN /\ Len(p.T) = 16
     /\ \A k \in 1..12 : Abs(p.T[k] - T[k]) <= (IF k % 4 = 0 THEN LEN ELSE ROT)
     /\ SubSeq(p.T, 13, 16) = <<0, 0, 0, S>>
Faults(m) == (IF m.valid = 0 THEN {"not a valid program"} ELSE {}) \cup {"pose " \o ToString(k) : k \in {k \in DOMAIN m.poses : ~Good(m.poses[k])}}
Init == it = 1 /\ bad = <<>>
Next == /\ it <= Len(Items) /\ it' = it + 1
        /\ LET b == Faults(I) IN bad' = IF b = {} THEN bad ELSE Append(bad, [it |-> it, clauses |-> SetToSeq(b)])
Spec == Init /\ [][Next]_<<it, bad>>
Report == it > Len(Items) => PrintT(<<"VERDICT", ToJson([items |-> Len(Items), bad |-> bad])>>)
=============================================================================
