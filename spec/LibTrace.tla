------------------------------ MODULE LibTrace ------------------------------
(* Recorded calls of the rigid-transform library against Rigid.  A case is  *)
(* a function name, argument forms (angles) and value indices (lengths,     *)
(* matrices), and the indices of the returned matrix (3x3 padded to 4x4).   *)
EXTENDS Rigid, Json, IOUtils, FiniteSets
VARIABLES it, bad
Cases == JsonDeserialize(IOEnv.TRACE).cases
C == Cases[it]
At(v, idx) == TLCEval(Mat(LAMBDA i, j : v[idx[4 * (i - 1) + j]]))
NoTrans(T) == T

Expect(c, v, D) ==
  CASE c.fn = "link" -> Link(D[1], v[c.len[1]], v[c.len[2]], D[2])
    [] c.fn = "rotx" -> RotX(D[1])
    [] c.fn = "roty" -> RotY(D[1])
    [] c.fn = "rotz" -> RotZ(D[1])
    [] c.fn = "rpy"  -> RPY(D[1], D[2], D[3])
    [] c.fn = "trans" -> Trans(v[c.len[1]], v[c.len[2]], v[c.len[3]])
    [] c.fn = "hinv" -> HInv(At(v, c.arg))
    [] c.fn = "same" -> At(v, c.arg)

Larger(a, b) == IF a > b THEN a ELSE b
Mag(a) == IF a < 0 THEN -a ELSE a
\* scalar helpers, on exact integers: angles in eighths of pi, numbers in millionths
ScalarOK(c) ==
  CASE c.fn = "wrap" -> c.r >= -8 /\ c.r < 8 /\ (c.r - c.x) % 16 = 0
    [] c.fn = "approx" -> c.r = (IF Mag(c.x - c.y) < Larger(Larger(Mag(c.x), Mag(c.y)) \div 1000, 10) THEN 1 ELSE 0)
    [] c.fn = "raised" -> FALSE

Symbols(c, q, fs) == FoldLeft(LAMBDA p, b :
     [p EXCEPT !.raw[b.sym] = LET d == DirOf(p, fs[b.form]) IN IF b.fn = "cos" THEN d[1] ELSE d[2]], q, c.binds)
OK(c) ==
  IF c.scalar = 1 THEN ScalarOK(c)
  ELSE \A k \in DOMAIN c.points :
    LET fs == TLCEval([i \in 1..Len(c.forms) |-> [k |-> c.forms[i].k, t |-> c.forms[i].t]])
        pt == TLCEval(Symbols(c, c.points[k], fs))
        v == TLCEval(RunProg(c.prog, pt, fs))
        D == TLCEval([i \in 1..Len(c.ang) |-> DirOf(pt, fs[c.ang[i]])])
    IN PointOK(c.points[k]) /\ At(v, c.res) = TLCEval(Expect(c, v, D))

Init == it = 1 /\ bad = <<>>
Next == /\ it <= Len(Cases) /\ it' = it + 1
        /\ bad' = IF OK(C) THEN bad ELSE Append(bad, [it |-> it, fn |-> C.fn])
Spec == Init /\ [][Next]_<<it, bad>>
Report == it > Len(Cases) => PrintT(<<"VERDICT", ToJson([items |-> Len(Cases), bad |-> bad])>>)
=============================================================================
