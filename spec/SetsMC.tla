------------------------------- MODULE SetsMC -------------------------------
(* The construction of the set of solutions, one solved unknown per step:  *)
(* the rows are doubled in reverse order for an unknown with two branches  *)
(* and every row gets its own version of the unknown; version k of an      *)
(* unknown is its branch (k mod number of branches) with the versions of   *)
(* row k for what it depends on.  Checked against Sets.                    *)
EXTENDS Sets
CONSTANTS N, MaxSol
VARIABLES nsol, deps, rows
vars == <<nsol, deps, rows>>

Rev(s) == [i \in 1..Len(s) |-> s[Len(s) + 1 - i]]
Double(s, k) == IF k = 1 THEN s ELSE s \o Rev(s)      \* k in 1..2
Init == nsol = <<>> /\ deps = <<>> /\ rows = <<>>
Add(k, D) ==
  /\ Len(nsol) < N
  /\ nsol' = Append(nsol, k) /\ deps' = Append(deps, D)
  /\ rows' = IF nsol = <<>> THEN [i \in 1..k |-> <<i>>]
             ELSE LET d == Double(rows, k) IN [i \in 1..Len(d) |-> Append(d[i], i)]
Next == \E k \in 1..MaxSol, D \in SUBSET (1..Len(nsol)) : Add(k, D)
Spec == Init /\ [][Next]_vars

Br(u, k)   == {((k - 1) % nsol[u]) + 1}
Uses(u, k) == {<<d, rows[k][d]>> : d \in deps[u]}
Good == nsol # <<>> => /\ Complete(nsol, rows) /\ Closed(rows, Uses) /\ Earlier(rows, Uses)
                       /\ Instance(rows, Br) /\ EachOnce(nsol, rows, Br)
=============================================================================
