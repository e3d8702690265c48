-------------------------------- MODULE Adam --------------------------------
(* Adam in fixed point: gradients in units of 1/1024 (|g| < 2), displacements in the units of the       *)
(* learning rate.  The bias-corrected moments are weighted averages of the gradients so far.           *)
EXTENDS Integers, Sequences
GS == 1024
RECURSIVE Pow(_, _)
Pow(b, k) == IF k = 0 THEN 1024 ELSE (Pow(b, k - 1) * b) \div 1024      \* (b/1024)^k in units of 1/1024
RECURSIVE Tot(_, _)
Tot(f, i) == IF i = 0 THEN 0 ELSE f[i] + Tot(f, i - 1)
RECURSIVE Isqrt_(_, _)
Isqrt_(n, x) == LET y == (x + n \div x) \div 2 IN IF y >= x THEN x ELSE Isqrt_(n, y)
Isqrt(n) == IF n = 0 THEN 0 ELSE Isqrt_(n, n)
\* weights of the gradients of steps 1..n after step n
W(b, n) == [k \in 1..n |-> Pow(b, n - k) \div 8]
Avg(w, f) == LET n == Len(f) IN Tot([k \in 1..n |-> w[k] * f[k]], n) \div Tot(w, n)
\* displacement of one coordinate at step n = Len(g), minimizing (g the gradients of the objective)
Disp(g, lr, b1, b2) ==
  LET n == Len(g)
      m == Avg(W(b1, n), g)
      s == Isqrt(Avg(W(b2, n), [k \in 1..n |-> g[k] * g[k]]))
  IN IF s = 0 THEN 0 ELSE -((lr * m) \div s)
\* the vector g scaled down to norm one if it is longer
Norm(g) == Isqrt(Tot([i \in 1..Len(g) |-> g[i] * g[i]], Len(g)))
Clip(g) == LET r == Norm(g) IN IF r <= GS THEN g ELSE [i \in 1..Len(g) |-> (g[i] * GS) \div r]
Project(x, lo, hi) == IF x < lo THEN lo ELSE IF x > hi THEN hi ELSE x
=============================================================================
