-------------------------------- MODULE Sets --------------------------------
(***************************************************************************)
(* The set of solutions of a robot.  Unknown u (in solving order) has      *)
(* nsol[u] branches; a row gives every unknown one version; the equation   *)
(* of a version is a branch of the unknown written in versions of the      *)
(* unknowns it depends on.                                                 *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, SequencesExt, FiniteSetsExt

Prod(s) == FoldLeft(LAMBDA a, b : a * b, 1, s)
Elems(s) == {s[i] : i \in DOMAIN s}

(* Declarative part.  rows: <<[unknown -> version]>>;                      *)
(* Br(u, k): the branches version k of u is an instance of (several if the *)
(* branches coincide); Uses(u, k): versions <<d, j>> its equation mentions *)
Complete(nsol, rows) == Len(rows) = Prod(nsol)
Closed(rows, Uses(_, _)) ==
  \A r \in DOMAIN rows : \A u \in DOMAIN rows[r] : \A x \in Uses(u, rows[r][u]) : x[1] \in DOMAIN rows[r] /\ rows[r][x[1]] = x[2]
Earlier(rows, Uses(_, _)) ==
  \A r \in DOMAIN rows : \A u \in DOMAIN rows[r] : \A x \in Uses(u, rows[r][u]) : x[1] < u
Vector(row, Br(_, _)) == [u \in DOMAIN row |-> Br(u, row[u])]
Instance(rows, Br(_, _)) == \A r \in DOMAIN rows : \A u \in DOMAIN rows[r] : Br(u, rows[r][u]) # {}
\* every combination of branches exactly once (coinciding branches: as often as they coincide)
EachOnce(nsol, rows, Br(_, _)) ==
  LET vs == TLCEval([r \in DOMAIN rows |-> Vector(rows[r], Br)]) IN
  \A v \in Elems(vs) : Cardinality({r \in DOMAIN vs : vs[r] = v}) = Prod([u \in 1..Len(nsol) |-> Cardinality(v[u])])
=============================================================================
