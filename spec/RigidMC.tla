------------------------------- MODULE RigidMC ------------------------------
(* The kinematic laws the other specifications rely on, checked for every   *)
(* chain of N links over the small field GF(P): all directions, all joint   *)
(* types, all directions of twist, lengths from a small set.                *)
EXTENDS Rigid, FiniteSets
CONSTANTS N, Len0
VARIABLES dh, vv
Dirs == {d \in (0..P-1) \X (0..P-1) : IsDir(d)}
Row  == [al : Dirs, a : Len0, d : Len0, th : Dirs]
Init == dh = <<>> /\ vv = <<>>
Next == Len(dh) < N /\ \E r \in Row, t \in {0, 1} : dh' = Append(dh, r) /\ vv' = Append(vv, t)
Spec == Init /\ [][Next]_<<dh, vv>>

Links == [i \in 1..Len(dh) |-> Link(dh[i].al, dh[i].a, dh[i].d, dh[i].th)]
M == Len(dh)
\* a link is turn-and-slide about x, then about z
LinkLaw == \A i \in 1..M : LET r == dh[i] IN
   Links[i] = MM(MM(RotX(r.al), Trans(r.a, 0, 0)), MM(RotZ(r.th), Trans(0, 0, r.d)))
InverseLaw == LET T == Chain(Links, 0, M) IN MM(T, HInv(T)) = Id4 /\ MM(HInv(T), T) = Id4
SplitLaw == \A k \in 0..M : MM(Chain(Links, 0, k), Chain(Links, k, M)) = Chain(Links, 0, M)
OrthoLaw == LET T == Chain(Links, 0, M) IN
   \A i, j \in 1..3 : Sum3(LAMBDA k : Mul(T[k][i], T[k][j])) = (IF i = j THEN 1 ELSE 0)
\* propagating unit rates gives the geometric Jacobian
JacobianLaw == \A i \in 1..M :
   LET b == Prop(Links, vv, [k \in 1..M |-> IF k = i THEN 1 ELSE 0], M) IN b.v \o b.w = JCol(Links, vv, i, M)
\* ... and the Jacobian is the derivative: with dT/dq_i = Chain(0,i) D Chain(i,M), D the
\* generator of a turn about / slide along z, inv(T) dT/dq_i is the twist of column i
Gen(t) == IF t = 1 THEN << <<0, Neg(1), 0, 0>>, <<1, 0, 0, 0>>, <<0, 0, 0, 0>>, <<0, 0, 0, 0>> >>
          ELSE << <<0, 0, 0, 0>>, <<0, 0, 0, 0>>, <<0, 0, 0, 1>>, <<0, 0, 0, 0>> >>
DerivativeLaw == \A i \in 1..M :
   LET T == Chain(Links, 0, M)  W == MM(HInv(T), MM(MM(Chain(Links, 0, i), Gen(vv[i])), Chain(Links, i, M)))
       j == JCol(Links, vv, i, M)
   IN /\ <<W[1][4], W[2][4], W[3][4]>> = <<j[1], j[2], j[3]>>
      /\ <<W[3][2], W[1][3], W[2][1]>> = <<j[4], j[5], j[6]>>
      /\ \A k \in 1..3 : W[k][k] = 0
=============================================================================
