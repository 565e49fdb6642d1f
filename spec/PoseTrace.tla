------------------------------ MODULE PoseTrace ------------------------------
(***************************************************************************)
(* Numeric solutions of an inverse-kinematics run against the forward      *)
(* kinematics of the mechanism, in fixed-point arithmetic (scale 10^4).    *)
(* An item is a mechanism; each of its poses carries the joint values that *)
(* made it, the link parameters there, the pose, and the solution rows:    *)
(* whether all values of the row are real, the joint values as cosine and  *)
(* sine (revolute) or length (prismatic), and the link parameters they     *)
(* give.  indep = 0: the mechanism is redundant, its joints are not         *)
(* determined by the pose, and only the pose can be asked for.             *)
(***************************************************************************)
EXTENDS Fixed, FiniteSets, Json, IOUtils, FiniteSetsExt
CONSTANTS ROT, LEN, JNT     \* tolerances: rotation entries, lengths, joint values
VARIABLES it, bad
Items == JsonDeserialize(IOEnv.TRACE).items
I == Items[it]
Near(A, B) == \A k \in 1..12 : Abs(A[k] - B[k]) <= (IF k % 4 = 0 THEN LEN ELSE ROT)
Same(q1, q2) == \A j \in 1..Len(q1) : /\ Abs(q1[j][2] - q2[j][2]) <= JNT /\ Abs(q1[j][3] - q2[j][3]) <= JNT

Real(p) == {r \in DOMAIN p.rows : p.rows[r].real = 1}
BadRows(p) == {r \in Real(p) : ~Near(Fk(p.rows[r].links), p.pose)}
PoseOK(p) == Near(Fk(p.links), p.pose)
Recovered(p) == \E r \in Real(p) : Same(p.rows[r].q, p.true)

Verdict(p) == [pose |-> IF PoseOK(p) THEN 1 ELSE 0, recovered |-> IF p.indep = 0 \/ Recovered(p) THEN 1 ELSE 0,
               real |-> Cardinality(Real(p)), bad |-> SetToSortSeq(BadRows(p), <)]

Init == it = 1 /\ bad = <<>>
Next == /\ it <= Len(Items) /\ it' = it + 1
        /\ bad' = Append(bad, [it |-> it, poses |-> [k \in DOMAIN I.poses |-> Verdict(I.poses[k])]])
Spec == Init /\ [][Next]_<<it, bad>>
Report == it > Len(Items) => PrintT(<<"VERDICT", ToJson([items |-> Len(Items), res |-> bad])>>)
=============================================================================
