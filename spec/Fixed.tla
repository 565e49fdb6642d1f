-------------------------------- MODULE Fixed -------------------------------
(***************************************************************************)
(* Kinematics of a serial chain in fixed-point arithmetic (scale 10^4):    *)
(* the pose of a chain of links (modified Denavit-Hartenberg) and its      *)
(* Jacobian seen in the last frame.                                        *)
(***************************************************************************)
EXTENDS Integers, Sequences, SequencesExt, TLC
S == 10000
Abs(x) == IF x < 0 THEN -x ELSE x
Q(x, k) == IF x >= 0 THEN x \div k ELSE -((-x) \div k)     \* round towards zero
\* a*b/S for |a| <= 2*S and |b| <= 5*10^6, without leaving 32 bits
Mul(a, b) == LET ah == Q(a, 100) al == a - 100 * ah IN Q(ah * b + Q(al * b, 100), 100)

\* a link is <<cos al, sin al, a, d, cos th, sin th>>; a frame 3x4, row major
Mat(l) == LET ca == l[1] sa == l[2] ct == l[5] st == l[6] IN
  << ct, -st, 0, l[3],
     Mul(st, ca), Mul(ct, ca), -sa, -Mul(sa, l[4]),
     Mul(st, sa), Mul(ct, sa), ca, Mul(ca, l[4]) >>
At(m, i, j) == m[4 * (i - 1) + j]
Times(A, B) == TLCEval([k \in 1..12 |-> LET i == ((k - 1) \div 4) + 1 j == ((k - 1) % 4) + 1 IN
    Mul(At(A, i, 1), At(B, 1, j)) + Mul(At(A, i, 2), At(B, 2, j)) + Mul(At(A, i, 3), At(B, 3, j))
    + (IF j = 4 THEN At(A, i, 4) ELSE 0)])
Fk(links) == LET s == [k \in 1..Len(links) |-> Mat(links[k])] IN FoldLeft(Times, s[1], Tail(s))


\* Jacobian: column i is the velocity of the origin of the last frame and its angular velocity,
\* seen in the last frame, per unit rate of joint i about (vv = 1) or along (vv = 0) the z axis of frame i
Cross(u, v) == <<Mul(u[2], v[3]) - Mul(u[3], v[2]), Mul(u[3], v[1]) - Mul(u[1], v[3]), Mul(u[1], v[2]) - Mul(u[2], v[1])>>
Col(T, j) == <<At(T, 1, j), At(T, 2, j), At(T, 3, j)>>
RtV(T, v) == [j \in 1..3 |-> Mul(At(T, 1, j), v[1]) + Mul(At(T, 2, j), v[2]) + Mul(At(T, 3, j), v[3])]
JCol(links, vv, i) ==
  LET A == Fk(SubSeq(links, 1, i)) T == Fk(links)
      z == Col(A, 3) r == [k \in 1..3 |-> Col(T, 4)[k] - Col(A, 4)[k]]
  IN IF vv[i] = 1 THEN RtV(T, Cross(z, r)) \o RtV(T, z) ELSE RtV(T, z) \o <<0, 0, 0>>
=============================================================================
