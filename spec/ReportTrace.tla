---------------------------- MODULE ReportTrace ----------------------------
(* Generated reports against Report.                                        *)
EXTENDS Report, Json, IOUtils
VARIABLES it, bad
Items == JsonDeserialize(IOEnv.TRACE).items
I == Items[it]
Init == it = 1 /\ bad = <<>>
Next == /\ it <= Len(Items) /\ it' = it + 1
        /\ LET b == Faults(I) IN bad' = IF b = {} THEN bad ELSE Append(bad, [it |-> it, clauses |-> SetToSeq(b)])
Spec == Init /\ [][Next]_<<it, bad>>
Verdict == it > Len(Items) => PrintT(<<"VERDICT", ToJson([items |-> Len(Items), bad |-> bad])>>)
=============================================================================
