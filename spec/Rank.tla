-------------------------------- MODULE Rank --------------------------------
(* The choice between the tangent and the sine-or-cosine solution of an     *)
(* unknown.  nsc, ntan: number of branches found (0: none); vsc, vtan:      *)
(* number of unknowns the first branch mentions.                            *)
EXTENDS Integers
Choice(nsc, ntan, vsc, vtan) ==
  CASE nsc = 0 /\ ntan = 0 -> "none"
    [] ntan = 0 -> "sc"
    [] nsc = 0 -> "tan"
    [] nsc < ntan -> "sc"
    [] ntan < nsc -> "tan"
    [] vsc < vtan -> "sc"
    [] OTHER -> "tan"
\* the choice never has more branches than the alternative, nor more unknowns at equal branches
Least == \A a, b, v, w \in 0..4 : LET c == Choice(a, b, v, w) IN
   /\ c = "sc" => a > 0 /\ (b = 0 \/ a < b \/ (a = b /\ v < w))
   /\ c = "tan" => b > 0 /\ (a = 0 \/ b < a \/ (a = b /\ w <= v))
   /\ c = "none" <=> a = 0 /\ b = 0
=============================================================================
