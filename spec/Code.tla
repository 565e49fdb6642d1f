-------------------------------- MODULE Code --------------------------------
(***************************************************************************)
(* What a generated inverse-kinematics program owes: given a pose it       *)
(* either reports that it cannot be reached or returns one row of values   *)
(* per row of the solution set, each value the one its equation gives.     *)
(* Versions are numbered; a version's equation at a pose has status        *)
(*   0 a value;  1 its own arcsine or arccosine is out of range;           *)
(*   2 undefined in another way (such as the root of a negative number);   *)
(*   3 not determined numerically (within rounding of such a limit, or     *)
(*     ill-conditioned);  4 depends on a version without value.            *)
(* An angle is <<1, cos, sin>>, a length <<0, value, 0>>, in fixed point.  *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, FiniteSetsExt
CONSTANT TOL
Abs(x) == IF x < 0 THEN -x ELSE x
Has(p, s) == \E v \in DOMAIN p.st : p.st[v] = s
Certain(p) == \A v \in DOMAIN p.st : p.st[v] = 0
Unreachable(p) == Has(p, 1)
NearV(a, b) == Len(a) = Len(b) /\ \A j \in DOMAIN a : a[j][1] = b[j][1] /\ Abs(a[j][2] - b[j][2]) <= TOL /\ Abs(a[j][3] - b[j][3]) <= TOL
\* the row of values the set's row r stands for
Want(m, p, r) == [j \in DOMAIN m.rows[r] |-> p.val[m.rows[r][j]]]
\* the rows returned and the rows wanted are the same, however ordered, none left out or doubled
SameRows(m, p, got) ==
  /\ Len(got) = Len(m.rows)
  /\ \A r \in DOMAIN m.rows : LET w == Want(m, p, r)
                              IN Cardinality({k \in DOMAIN got : NearV(got[k], w)}) >= Cardinality({k \in DOMAIN m.rows : NearV(Want(m, p, k), w)})
\* the rows none of whose versions is in doubt are among those returned, as often as they are wanted
Sure(m, p) == {r \in DOMAIN m.rows : \A j \in DOMAIN m.rows[r] : p.st[m.rows[r][j]] = 0}
SureRows(m, p, got) ==
  /\ Len(got) = Len(m.rows)
  /\ \A r \in Sure(m, p) : LET w == Want(m, p, r)
                           IN Cardinality({k \in DOMAIN got : NearV(got[k], w)}) >= Cardinality({k \in Sure(m, p) : NearV(Want(m, p, k), w)})
\* outcome: [kind: "rows", "none" (cannot be reached), "error"; rows]
Good(m, p, o, guarded) ==
  IF Certain(p) THEN o.kind = "rows" /\ SameRows(m, p, o.rows)
  ELSE IF Unreachable(p) THEN ((Has(p, 2) \/ Has(p, 3)) /\ guarded = 1 /\ o.kind # "rows") \/ o.kind = "none"
  ELSE /\ o.kind = "rows" => SureRows(m, p, o.rows)
       /\ (guarded = 0 /\ ~Has(p, 3)) => o.kind = "rows"                    \* nothing stops this program
       /\ (guarded = 1 /\ ~Has(p, 3)) => o.kind # "rows"
=============================================================================
