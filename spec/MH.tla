--------------------------------- MODULE MH ---------------------------------
(* Why the acceptance rules are what they are: with integer weights, the flow of probability    *)
(* from x to y, P(x) Q(x,y) min(1, P(y)Q(y,x)/(P(x)Q(x,y))), is symmetric for every target and  *)
(* proposal; the leapfrog map with a momentum flip is its own inverse, hence volume preserving, *)
(* for every potential and metric.  The Variant constant gives deliberately wrong designs.      *)
EXTENDS Integers, FiniteSets, Sequences
CONSTANTS Variant, N, W, Mod
S == 1..N
VARIABLES P, Q, V, M, phase
vars == <<P, Q, V, M, phase>>

\* numerator and denominator of the acceptance ratio
Num(x, y) == IF Variant = "nocorrection" THEN P[y] ELSE IF Variant = "inverted" THEN P[y] * Q[x][y] ELSE P[y] * Q[y][x]
Den(x, y) == IF Variant = "nocorrection" THEN P[x] ELSE IF Variant = "inverted" THEN P[x] * Q[y][x] ELSE P[x] * Q[x][y]
\* flow(x,y) * Den(x,y): P(x) Q(x,y) min(Den, Num)
Lesser(a, b) == IF a < b THEN a ELSE b
DetailedBalance == \A x, y \in S :
  P[x] * Q[x][y] * Lesser(Den(x, y), Num(x, y)) * Den(y, x) = P[y] * Q[y][x] * Lesser(Den(y, x), Num(y, x)) * Den(x, y)

(* ---- global steps: proposals do not depend on the state: Q[x][y] = Q[1][y].  A chain of two     *)
(* steps compares the second proposal with the state after the first; comparing with the starting  *)
(* state instead is not reversible with respect to P.                                              *)

(* ---- leapfrog on the integers modulo Mod: x' = x + M p, p' = p - F(x), with F = V ---- *)
Z == 0..(Mod - 1)
Kick(s, half) == [s EXCEPT !.p = (s.p + Mod * Mod - (IF half THEN V[s.x] ELSE 2 * V[s.x])) % Mod]
Drift(s) == [s EXCEPT !.x = (s.x + M * s.p) % Mod]
Flip(s) == [s EXCEPT !.p = (Mod - s.p) % Mod]
RECURSIVE Full(_, _)
Full(s, k) == IF k = 0 THEN s ELSE Full(Kick(Drift(s), FALSE), k - 1)
Leap(s, k) == IF Variant = "euler" THEN Full(s, k + 1)
              ELSE IF Variant = "lasthalf" THEN Kick(Drift(Full(s, k)), TRUE)
              ELSE Kick(Drift(Full(Kick(s, TRUE), k)), TRUE)
Reversible == \A x, p \in Z : \A k \in 0..2 :
  Flip(Leap(Flip(Leap([x |-> x, p |-> p], k)), k)) = [x |-> x, p |-> p]

Init == /\ phase = 0 /\ P = [s \in S |-> 1] /\ Q = [s \in S |-> [t \in S |-> 1]]
        /\ V = [z \in Z |-> 0] /\ M = 1
Next == \/ /\ phase = 0
           /\ P' \in [S -> 1..W] /\ Q' \in [S -> [S -> 1..W]] /\ phase' = 1 /\ UNCHANGED <<V, M>>
        \/ /\ phase = 0
           /\ V' \in [Z -> Z] /\ M' \in 1..2 /\ phase' = 2 /\ UNCHANGED <<P, Q>>
Inv == (phase = 1 => DetailedBalance) /\ (phase = 2 => Reversible)
=============================================================================
