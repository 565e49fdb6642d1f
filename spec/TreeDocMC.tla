----------------------------- MODULE TreeDocMC ------------------------------
\* every acyclic shape of three nodes (children have higher numbers), shared nodes included
EXTENDS TreeDoc
M == 3
SeqsOver(S) == UNION {[1..k -> S] : k \in 0..3}
Shape(i) == {s \in SeqsOver(i+1..M) : TRUE}
Nm(s, k) == IF s = <<>> THEN (IF k = 1 THEN "Custom" ELSE "Succeeder")
            ELSE IF Len(s) = 1 /\ k = 1 THEN "Inverter" ELSE "Sequence"
Node(s, k) == [name |-> Nm(s, k), cat |-> CatOf(Nm(s, k)), title |-> "t", desc |-> "", props |-> 0, ch |-> s]
Init == \E s1 \in Shape(1), s2 \in Shape(2), k1, k2, k3 \in 0..1, r \in 0..2 :
           Start(<<Node(s1, k1), Node(s2, k2), Node(<<>>, k3)>>, r)
Next == Visit \/ Finish
Spec == Init /\ [][Next]_dvars /\ WF_dvars(Next)
Ends == <>(phase = "done")
=============================================================================
