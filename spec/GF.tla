--------------------------------- MODULE GF ---------------------------------
(***************************************************************************)
(* Exact arithmetic for symbolic kinematics.  An identity between rational *)
(* expressions in lengths and in sines and cosines of angles is decided by  *)
(* evaluating both sides at random points of the prime field GF(P),         *)
(* P = 1 mod 24, where an angle is replaced by a direction (c, s) with      *)
(* c^2 + s^2 = 1 and adding angles is composing directions.  Angles that    *)
(* occur outside of sine and cosine have an independent "raw" value, for    *)
(* which the same sums hold.  pi/12 is a fixed direction of order 24.       *)
(***************************************************************************)
EXTENDS Integers, Sequences, SequencesExt, TLC
CONSTANT P

Add(a, b) == (a + b) % P
Sub(a, b) == (a - b + P) % P
Mul(a, b) == (a * b) % P
Neg(a)    == (P - a) % P
Norm(a)   == ((a % P) + P) % P
RECURSIVE Pow(_, _)
Pow(a, n) == IF n = 0 THEN 1 ELSE LET h == Pow(Mul(a, a), n \div 2) IN IF n % 2 = 0 THEN h ELSE Mul(h, a)
Inv(a)    == Pow(a, P - 2)

\* directions
One       == <<1, 0>>
IsDir(d)  == Add(Mul(d[1], d[1]), Mul(d[2], d[2])) = 1
Turn(d, e) == <<Sub(Mul(d[1], e[1]), Mul(d[2], e[2])), Add(Mul(d[1], e[2]), Mul(d[2], e[1]))>>
Back(d)   == <<d[1], Neg(d[2])>>
RECURSIVE Times(_, _)
Times(d, k) == IF k < 0 THEN Times(Back(d), -k) ELSE IF k = 0 THEN One ELSE Turn(d, Times(d, k - 1))

(* A point: raw[i] and dir[i] of symbol i, twelfth = the direction of pi/12, *)
(* pi = the raw value of the number pi, r2, r3 = square roots of 2 and 3.   *)
PointOK(pt) == /\ \A i \in DOMAIN pt.dir : IsDir(pt.dir[i])
               /\ Times(pt.twelfth, 6) = <<0, 1>> /\ Times(pt.twelfth, 12) = <<P - 1, 0>>
               /\ Mul(pt.r2, pt.r2) = 2 % P /\ Mul(pt.r3, pt.r3) = 3 % P
               /\ Mul(pt.r2, Times(pt.twelfth, 3)[1]) = 1 /\ Mul(2, Times(pt.twelfth, 2)[1]) = pt.r3

\* the direction of a linear form  k*pi/12 + sum c_i * angle_i
DirOf(pt, f) == FoldLeft(LAMBDA d, t : Turn(d, Times(pt.dir[t[1]], t[2])), Times(pt.twelfth, f.k % 24), f.t)
\* 1/12 in the field
RawOf(pt, f) == FoldLeft(LAMBDA r, t : Add(r, Mul(Norm(t[2]), pt.raw[t[1]])),
                         Mul(Mul(Norm(f.k), pt.pi), Inv(12)), f.t)

(* A straight-line program: instruction i computes value i from earlier     *)
(* ones.  <<0,v,_>> constant  <<1,s,_>> raw value of a symbol  <<2,f,_>>    *)
(* cosine and <<3,f,_>> sine of linear form f  <<4,i,j>> sum  <<5,i,j>>     *)
(* product  <<6,i,_>> reciprocal  <<7,n,_>> square root of 2 or 3           *)
(* <<8,_,_>> pi                                                            *)
Instr(acc, pt, forms, x) ==
  CASE x[1] = 0 -> Norm(x[2])
    [] x[1] = 1 -> pt.raw[x[2]]
    [] x[1] = 2 -> forms[x[2]][1]
    [] x[1] = 3 -> forms[x[2]][2]
    [] x[1] = 4 -> Add(acc[x[2]], acc[x[3]])
    [] x[1] = 5 -> Mul(acc[x[2]], acc[x[3]])
    [] x[1] = 6 -> Inv(acc[x[2]])
    [] x[1] = 7 -> IF x[2] = 2 THEN pt.r2 ELSE pt.r3
    [] x[1] = 8 -> pt.pi

RunProg(prog, pt, forms) ==
  LET fv == TLCEval([i \in 1..Len(forms) |-> DirOf(pt, forms[i])])
  IN FoldLeft(LAMBDA acc, x : Append(acc, Instr(acc, pt, fv, x)), <<>>, prog)
=============================================================================
