-------------------------------- MODULE Roots --------------------------------
(***************************************************************************)
(* Solving for one unknown.  An equation is linear in the sine and cosine  *)
(* of the unknown angle and in the unknown length:                         *)
(*      A sin(u) + B cos(u) + C u + K = 0                                  *)
(* Here numbers are fixed point with scale S; the laws are in RootsMC.     *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, FiniteSetsExt, SequencesExt, TLC
CONSTANT S
Abs(x) == IF x < 0 THEN -x ELSE x
Q(x, k) == IF x >= 0 THEN x \div k ELSE -((-x) \div k)
\* an angle or length: [s, c, u]
Residual(e, v) == Q(e.A * v.s, S) + Q(e.B * v.c, S) + Q(e.C * v.u, S) + e.K
Tol(e) == Q(Abs(e.A) + Abs(e.B) + Abs(e.C) + Abs(e.K), 400) + 12
Satisfies(e, v) == Abs(Residual(e, v)) <= Tol(e)
Same(v, w, angle) == IF angle = 1 THEN Abs(v.s - w.s) + Abs(v.c - w.c) <= S \div 60 ELSE Abs(v.u - w.u) <= S \div 60

\* the equations agree up to a factor (at this point)
Big(e) == LET m == Max({Abs(e.A), Abs(e.B), Abs(e.C), Abs(e.K)}) IN m
Parallel(e, f) ==
  LET X(a, b, c, d) == Abs(Q(a, 64) * Q(b, 64) - Q(c, 64) * Q(d, 64)) <= 6 * (Q(Big(e), 64) + Q(Big(f), 64)) + 40
  IN /\ X(e.A, f.B, e.B, f.A) /\ X(e.A, f.C, e.C, f.A) /\ X(e.A, f.K, e.K, f.A)
     /\ X(e.B, f.C, e.C, f.B) /\ X(e.B, f.K, e.K, f.B) /\ X(e.C, f.K, e.K, f.C)

\* number of solutions an equation has: one in a length; two in an angle where
\* it has any (the generator keeps clear of the case of one)
Roots1(e) == IF e.C # 0 THEN 1
             ELSE LET a == Q(e.A, 32) b == Q(e.B, 32) k == Q(e.K, 32)
                  IN IF a * a + b * b > k * k THEN 2 ELSE 0
=============================================================================
