-------------------------------- MODULE Rigid -------------------------------
(* Rigid transforms of a serial chain over GF(P), modified (Craig) DH.      *)
EXTENDS GF

Sum4(f(_)) == Add(Add(f(1), f(2)), Add(f(3), f(4)))
Sum3(f(_)) == Add(Add(f(1), f(2)), f(3))
Mat(f(_, _)) == [i \in 1..4 |-> [j \in 1..4 |-> f(i, j)]]
Id4 == Mat(LAMBDA i, j : IF i = j THEN 1 ELSE 0)
MM(A, B) == TLCEval(Mat(LAMBDA i, j : Sum4(LAMBDA k : Mul(A[i][k], B[k][j]))))

\* al, th are directions, a and d lengths
Link(al, a, d, th) ==
  << <<th[1], Neg(th[2]), 0, a>>,
     <<Mul(th[2], al[1]), Mul(th[1], al[1]), Neg(al[2]), Neg(Mul(al[2], d))>>,
     <<Mul(th[2], al[2]), Mul(th[1], al[2]), al[1], Mul(al[1], d)>>,
     <<0, 0, 0, 1>> >>

\* the same transform from elementary motions: Rot_x(al) Trans_x(a) Rot_z(th) Trans_z(d)
RotX(d) == << <<1, 0, 0, 0>>, <<0, d[1], Neg(d[2]), 0>>, <<0, d[2], d[1], 0>>, <<0, 0, 0, 1>> >>
RotY(d) == << <<d[1], 0, d[2], 0>>, <<0, 1, 0, 0>>, <<Neg(d[2]), 0, d[1], 0>>, <<0, 0, 0, 1>> >>
RotZ(d) == << <<d[1], Neg(d[2]), 0, 0>>, <<d[2], d[1], 0, 0>>, <<0, 0, 1, 0>>, <<0, 0, 0, 1>> >>
Trans(x, y, z) == << <<1, 0, 0, x>>, <<0, 1, 0, y>>, <<0, 0, 1, z>>, <<0, 0, 0, 1>> >>
RPY(r, p, y) == MM(RotZ(y), MM(RotY(p), RotX(r)))

HInv(T) == TLCEval(Mat(LAMBDA i, j :
   IF i = 4 THEN (IF j = 4 THEN 1 ELSE 0)
   ELSE IF j < 4 THEN T[j][i]
   ELSE Neg(Sum3(LAMBDA k : Mul(T[k][i], T[k][4])))))

\* product of the links m+1..n of a chain (frame n in frame m); links: sequence of matrices
RECURSIVE Chain(_, _, _)
Chain(links, m, n) == IF m >= n THEN Id4 ELSE MM(links[m + 1], Chain(links, m + 1, n))

Col(T, j) == <<T[1][j], T[2][j], T[3][j]>>
Cross(u, v) == <<Sub(Mul(u[2], v[3]), Mul(u[3], v[2])), Sub(Mul(u[3], v[1]), Mul(u[1], v[3])),
                 Sub(Mul(u[1], v[2]), Mul(u[2], v[1]))>>
VSub(u, v) == <<Sub(u[1], v[1]), Sub(u[2], v[2]), Sub(u[3], v[3])>>
VAdd(u, v) == <<Add(u[1], v[1]), Add(u[2], v[2]), Add(u[3], v[3])>>
RtV(T, v) == [i \in 1..3 |-> Sum3(LAMBDA k : Mul(T[k][i], v[k]))]   \* transpose(R) * v

(* Geometric Jacobian in frame n: column i is the velocity of the origin of  *)
(* frame n and its angular velocity, seen in frame n, per unit rate of joint *)
(* i, which turns about (vv = 1) or slides along (vv = 0) the z axis of      *)
(* frame i.                                                                 *)
JColT(T0i, T0n, rotary) ==
  LET z == Col(T0i, 3)  r == VSub(Col(T0n, 4), Col(T0i, 4))
      lin == IF rotary THEN Cross(z, r) ELSE z
      ang == IF rotary THEN z ELSE <<0, 0, 0>>
  IN TLCEval(RtV(T0n, lin) \o RtV(T0n, ang))
JCol(links, vv, i, n) == JColT(TLCEval(Chain(links, 0, i)), TLCEval(Chain(links, 0, n)), vv[i] = 1)

\* velocity propagation (Craig 5.45-5.48): what the code computes
RECURSIVE Prop(_, _, _, _)
Prop(links, vv, qd, n) ==
  IF n = 0 THEN [v |-> <<0, 0, 0>>, w |-> <<0, 0, 0>>]
  ELSE LET b == TLCEval(Prop(links, vv, qd, n - 1))  T == links[n]
           rz == <<0, 0, IF vv[n] = 1 THEN qd[n] ELSE 0>>
           pz == <<0, 0, IF vv[n] = 0 THEN qd[n] ELSE 0>>
       IN [w |-> VAdd(RtV(T, b.w), rz),
           v |-> VAdd(RtV(T, VAdd(b.v, Cross(b.w, Col(T, 4)))), pz)]
=============================================================================
