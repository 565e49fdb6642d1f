------------------------------- MODULE RootsMC -------------------------------
(* The laws of solving for an angle, over the circle of a finite field:      *)
(* how many angles satisfy an equation or a pair, and that the solution      *)
(* formulas of the methods give exactly these.                               *)
EXTENDS Integers, FiniteSets, TLC
CONSTANT P
VARIABLES A, B, C, D
F == 0..P - 1
Circle == {<<s, c>> \in F \X F : (s * s + c * c) % P = 1}
InvP == TLCEval([x \in 1..P - 1 |-> CHOOSE y \in 1..P - 1 : (x * y) % P = 1])
Init == A \in F /\ B \in F /\ C \in F /\ D \in F
Next == UNCHANGED <<A, B, C, D>>
Spec == Init /\ [][Next]_<<A, B, C, D>>
N2 == (A * A + B * B) % P
M(x) == ((x % P) + P) % P
\* A sin + B cos = C
One == {p \in Circle : M(A * p[1] + B * p[2] - C) = 0}
\* A sin + B cos = C and A cos - B sin = D
Pair == {p \in One : M(A * p[2] - B * p[1] - D) = 0}
\* A sin = C and B cos = D
Tan == {p \in Circle : M(A * p[1] - C) = 0 /\ M(B * p[2] - D) = 0}
\* the same with a common unknown factor f: f A sin = C and f B cos = D for some f
Tans == {p \in Circle : \E f \in 1..P - 1 : M(f * A * p[1] - C) = 0 /\ M(f * B * p[2] - D) = 0}

AtMostTwo  == N2 # 0 => Cardinality(One) <= 2
AtMostOne  == N2 # 0 => Cardinality(Pair) <= 1
\* sine and cosine in one equation: with t^2 = A^2 + B^2 - C^2
Formula1   == N2 # 0 => One = {<<M((A * C + B * t) * InvP[N2]), M((B * C - A * t) * InvP[N2])>> :
                                t \in {x \in F : M(x * x - N2 + C * C) = 0}}
\* simultaneous equations: the direction (A C - B D, A D + B C)
Formula2   == N2 # 0 /\ Pair # {} => Pair = {<<M((A * C - B * D) * InvP[N2]), M((A * D + B * C) * InvP[N2])>>}
\* tangent: the direction (C / A, D / B)
FormulaTan == A # 0 /\ B # 0 => Tan = {p \in {<<M(C * InvP[A]), M(D * InvP[B])>>} : p \in Circle}
\* common factor: a direction and its opposite, unless both sides vanish
TwoBranches == A # 0 /\ B # 0 /\ (C # 0 \/ D # 0) => \A p, q \in Tans : q \in {p, <<M(-p[1]), M(-p[2])>>}
\* sine alone: the other solution is the supplement; cosine alone: the negative
Supplement == A # 0 /\ B = 0 => \A p \in One : <<p[1], M(-p[2])>> \in One
Negative   == A = 0 /\ B # 0 => \A p \in One : <<M(-p[1]), p[2]>> \in One
=============================================================================
