------------------------------ MODULE RankTrace ------------------------------
EXTENDS Rank, Sequences, FiniteSets, TLC, Json, IOUtils
VARIABLES it, bad
Cases == JsonDeserialize(IOEnv.TRACE).cases
C == Cases[it]
N(c) == CASE c.took = "sc" -> c.nsc [] c.took = "tan" -> c.ntan [] OTHER -> 0
OK(c) ==
  LET w == Choice(c.nsc, c.ntan, c.vsc, c.vtan) IN
  IF c.run = 1 THEN \/ c.took = w \/ (c.took = "both" /\ w \in {"sc", "tan"}) \/ (c.took = "unsolved" /\ w = "none")
  ELSE /\ c.err = "" /\ c.st = 1 /\ c.took = w /\ c.cur = 1
       /\ c.solved = (IF w = "none" THEN 0 ELSE 1) /\ c.nodes = c.solved
       /\ c.eq = w /\ c.n = N(c)
Init == it = 1 /\ bad = <<>> /\ Assert(Least, "the choice is not the least")
Next == it <= Len(Cases) /\ it' = it + 1 /\ bad' = IF OK(C) THEN bad ELSE Append(bad, [it |-> it])
Spec == Init /\ [][Next]_<<it, bad>>
Report == it > Len(Cases) => PrintT(<<"VERDICT", ToJson([items |-> Len(Cases), bad |-> bad])>>)
=============================================================================
