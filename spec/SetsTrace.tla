------------------------------ MODULE SetsTrace ------------------------------
(* Recorded solution sets of the real code (of solver runs and of synthetic *)
(* dependency structures) against Sets.                                     *)
EXTENDS Sets, Json, IOUtils
VARIABLES it, bad
Items == JsonDeserialize(IOEnv.TRACE).items
I == Items[it]

Q(x) == [i \in 1..Len(x) |-> x[i]]
RowOK(x, row) == /\ \A c \in DOMAIN row : row[c][1] \in 1..x.n /\ row[c][2] >= 1
                 /\ Len(row) = x.n /\ {row[c][1] : c \in DOMAIN row} = 1..x.n
RowFn(x, row) == [u \in 1..x.n |-> LET c == CHOOSE c \in DOMAIN row : row[c][1] = u IN row[c][2]]
\* all version equations, flattened
Eqns(x) == FlattenSeq([k \in 1..Len(x.vers) |-> Q(x.vers[k])])

Broken(x) ==
  IF x.n = 0 THEN (IF Len(x.rows) = 0 THEN {} ELSE {"rows"})
  ELSE IF \E r \in DOMAIN x.rows : ~RowOK(x, x.rows[r]) THEN {"a row does not give every solved unknown one version"}
  ELSE
  LET rows == TLCEval([r \in 1..Len(x.rows) |-> RowFn(x, x.rows[r])])
      nsol == Q(x.nsol)
      es == TLCEval(Eqns(x))
      idx == TLCEval([u \in 1..x.n |-> [k \in {es[i].k : i \in {j \in DOMAIN es : es[j].u = u}} |->
                 {i \in DOMAIN es : es[i].u = u /\ es[i].k = k}]])
      Has(u, k) == k \in DOMAIN idx[u]
      E(u, k) == es[CHOOSE i \in idx[u][k] : TRUE]
      Br(u, k) == Elems(E(u, k).br)
      Uses(u, k) == Elems(E(u, k).uses)
      needed == {<<u, rows[r][u]>> : u \in 1..x.n, r \in DOMAIN rows}
  IN (IF ~Complete(nsol, rows) THEN {"number of rows"} ELSE {})
     \cup (IF Cardinality(Elems(rows)) # Len(rows) THEN {"equal rows"} ELSE {})
     \cup (IF {Elems(t) : t \in Elems(x.set)} # {Elems(t) : t \in Elems(x.rows)} THEN {"set and list of rows differ"} ELSE {})
     \cup (IF Elems(x.solved) # 1..x.n THEN {"solved unknowns"} ELSE {})
     \cup (IF \E p \in needed : ~Has(p[1], p[2]) THEN {"a version without equation"}
           ELSE (IF \E p \in needed : Cardinality(idx[p[1]][p[2]]) # 1 THEN {"a version with two equations"} ELSE {})
                \cup (IF \E p \in needed : E(p[1], p[2]).raw # 0 THEN {"an equation with an unversioned unknown"} ELSE {})
                \cup (IF ~Instance(rows, Br) THEN {"an equation that is no branch of its unknown"} ELSE
                      IF ~EachOnce(nsol, rows, Br) THEN {"branch combinations"} ELSE {})
                \cup (IF ~Closed(rows, Uses) THEN {"an equation uses versions of another row"} ELSE {})
                \cup (IF ~Earlier(rows, Uses) THEN {"an equation uses a later unknown"} ELSE {}))

Init == it = 1 /\ bad = <<>>
Next == /\ it <= Len(Items) /\ it' = it + 1
        /\ LET b == Broken(I) IN bad' = IF b = {} THEN bad ELSE Append(bad, [it |-> it, clauses |-> SetToSeq(b)])
Spec == Init /\ [][Next]_<<it, bad>>
Report == it > Len(Items) => PrintT(<<"VERDICT", ToJson([items |-> Len(Items), bad |-> bad])>>)
=============================================================================
