---------------------------- MODULE RobotsTrace ----------------------------
(* Lookups.  tables: one entry per listed name as looked up alone in a new  *)
(* interpreter.  histories: lookups one after the other, [name, result]:    *)
(* result is the number of the table with that content, 0 for a refusal,    *)
(* -1 for anything else.  A lookup is a function of the name alone.         *)
EXTENDS Robots, Json, IOUtils, TLC
VARIABLES it, bad
J == JsonDeserialize(IOEnv.TRACE)
NT == Len(J.tables)
Want(name) == IF name \in 1..NT THEN name ELSE 0
\* equal tables under two names share the number of the first
Rep(k) == IF k = 0 THEN 0 ELSE J.rep[k]
Verdict(k) ==
  IF k <= NT THEN (IF J.tables[k].ok = 0 THEN {"listed but not found"} ELSE Faults(J.tables[k]))
  ELSE LET h == J.histories[k - NT]
       IN {"lookup " \o ToString(i) \o ": not the table of that name" : i \in {i \in DOMAIN h : h[i][2] # Rep(Want(h[i][1]))}}
Init == it = 1 /\ bad = <<>>
Next == /\ it <= NT + Len(J.histories) /\ it' = it + 1
        /\ LET b == Verdict(it) IN bad' = IF b = {} THEN bad ELSE Append(bad, [it |-> it, clauses |-> SetToSeq(b)])
Spec == Init /\ [][Next]_<<it, bad>>
Report == it > NT + Len(J.histories) => PrintT(<<"VERDICT", ToJson([items |-> NT + Len(J.histories), bad |-> bad])>>)
=============================================================================
