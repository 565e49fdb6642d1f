------------------------------ MODULE KinTrace ------------------------------
(* Recorded symbolic results of the implementation against Rigid: forward   *)
(* kinematics, the matrix equations derived from it, the Jacobian, and      *)
(* lists of scalar equations.  An item carries the DH table, the expressions *)
(* as one straight-line program and a few points of GF(P).                  *)
EXTENDS Rigid, Json, IOUtils, FiniteSets
VARIABLES it, bad
Items == JsonDeserialize(IOEnv.TRACE).items
I == Items[it]

S(x) == [i \in 1..Len(x) |-> x[i]]
Forms(x) == [i \in 1..Len(x.forms) |-> [k |-> x.forms[i].k, t |-> x.forms[i].t]]

\* a 4x4 matrix from 16 value indices, row by row
At(v, idx) == Mat(LAMBDA i, j : v[idx[4 * (i - 1) + j]])

LinksOf(x, pt, fs) ==
  LET v == RunProg(x.dhprog, pt, fs)
  IN TLCEval([i \in 1..Len(x.dh) |-> Link(DirOf(pt, fs[x.dh[i].al]), v[x.dh[i].a], v[x.dh[i].d], DirOf(pt, fs[x.dh[i].th]))])

\* symbols that stand for something: cosine / sine of a link twist, sums of
\* joint angles (in the order they were introduced), entries of the pose
WithAlphas(x, pt, fs) == FoldLeft(LAMBDA p, b :
     [p EXCEPT !.raw[b.sym] = LET d == DirOf(p, fs[b.form]) IN IF b.fn = "cos" THEN d[1] ELSE d[2]], pt, x.alphas)
WithSums(x, pt, fs) == FoldLeft(LAMBDA p, b :
     [p EXCEPT !.raw[b.sym] = RawOf(p, fs[b.form]), !.dir[b.sym] = DirOf(p, fs[b.form])], pt, x.sums)
WithPose(x, pt, T) == FoldLeft(LAMBDA p, b : [p EXCEPT !.raw[b.sym] = T[b.i][b.j]], pt, x.pose)

Pairs(x, v) == {<<At(v, x.eqs[e].Td), At(v, x.eqs[e].Ts)>> : e \in DOMAIN x.eqs}

\* left sides for an arbitrary pose matrix T (only link transforms are inverted)
RECURSIVE InvProd(_, _, _)   \* inverse of Chain(links, 0, k) applied to T
InvProd(links, k, T) == IF k = 0 THEN T ELSE MM(HInv(links[k]), InvProd(links, k - 1, T))
Expected(links, T) ==
  {<<InvProd(links, k, T), Chain(links, k, 6)>> : k \in 0..5}
  \cup {<<MM(InvProd(links, 1, T), HInv(links[6])), Chain(links, 1, 5)>>,
        <<MM(MM(InvProd(links, 2, T), HInv(links[6])), HInv(links[5])), Chain(links, 2, 4)>>}

PoseAt(p, x) == Mat(LAMBDA i, j : IF i = 4 THEN (IF j = 4 THEN 1 ELSE 0)
                   ELSE LET b == CHOOSE b \in {x.pose[m] : m \in DOMAIN x.pose} : b.i = i /\ b.j = j IN p.raw[b.sym])

\* clauses broken by item x at point q
Broken(x, q) ==
  LET fs == TLCEval(Forms(x))
      p0 == TLCEval(WithAlphas(x, q, fs))
      p1 == TLCEval(WithSums(x, p0, fs))
      links == LinksOf(x, p1, fs)
      T == TLCEval(Chain(links, 0, Len(links)))
      pose == TLCEval(WithPose(x, p1, T))
      v == TLCEval(RunProg(x.prog, pose, fs))
      free == TLCEval(RunProg(x.prog, p1, fs))
      n == Len(links)
  IN (IF ~PointOK(q) THEN {"point"} ELSE {})
     \cup (IF x.T06 # <<>> /\ At(v, x.T06) # T THEN {"fk"} ELSE {})
     \cup (IF Len(x.eqs) > 0 /\ ~(Expected(links, TLCEval(PoseAt(p1, x))) \subseteq Pairs(x, free)) THEN {"equation set"} ELSE {})
     \cup (IF \E e \in DOMAIN x.eqs : At(v, x.eqs[e].Td) # At(v, x.eqs[e].Ts) THEN {"equation false"} ELSE {})
     \cup (IF Len(x.J) > 0 /\ \E c \in 1..n : LET jc == JColT(TLCEval(Chain(links, 0, c)), T, x.vv[c] = 1)
                                               got == TLCEval([r \in 1..6 |-> v[x.J[6 * (r - 1) + c]]])
                                           IN got # jc
           THEN {"jacobian"} ELSE {})
     \cup {ToString(<<"eq", e>>) : e \in {e \in DOMAIN x.scalars : v[x.scalars[e][1]] # v[x.scalars[e][2]]}}

Init == it = 1 /\ bad = <<>>
Next == /\ it <= Len(Items) /\ it' = it + 1
        /\ LET b == UNION {Broken(I, I.points[k]) : k \in DOMAIN I.points}
           IN bad' = IF b = {} THEN bad ELSE Append(bad, [it |-> it, clauses |-> SetToSeq(b)])
Spec == Init /\ [][Next]_<<it, bad>>
Report == it > Len(Items) => PrintT(<<"VERDICT", ToJson([items |-> Len(Items), bad |-> bad])>>)
=============================================================================
