-------------------------------- MODULE Flow --------------------------------
(* Flows as stacks of coupling layers, in exact dyadic arithmetic: a layer keeps the coordinates its    *)
(* mask selects and maps every other coordinate x to (x + t) * 2^k, where t and k depend on the kept    *)
(* coordinates only.  Log-determinants and log-densities are counted in units of ln 2.                  *)
EXTENDS Integers, Sequences
RECURSIVE Pow2(_)
Pow2(k) == IF k = 0 THEN 1 ELSE 2 * Pow2(k - 1)
Shl(x, k) == IF k >= 0 THEN x * Pow2(k) ELSE x \div Pow2(-k)
RECURSIVE SumN(_, _)
SumN(f, n) == IF n = 0 THEN 0 ELSE f[n] + SumN(f, n - 1)
Total(f) == SumN(f, Len(f))
\* a layer is [mask, k, t]: k and t are functions of the class (-1, 0, 1) of the kept coordinates
Class(L, x) == LET s == Total([i \in 1..Len(x) |-> L.mask[i] * x[i]]) IN IF s < 0 THEN -1 ELSE IF s > 0 THEN 1 ELSE 0
LFwd(L, x) == LET c == Class(L, x) IN [i \in 1..Len(x) |-> IF L.mask[i] = 1 THEN x[i] ELSE Shl(x[i] + L.t[c], L.k[c])]
LInv(L, y) == LET c == Class(L, y) IN [i \in 1..Len(y) |-> IF L.mask[i] = 1 THEN y[i] ELSE Shl(y[i], -L.k[c]) - L.t[c]]
LDet(L, x) == Total([i \in 1..Len(x) |-> (1 - L.mask[i]) * L.k[Class(L, x)]])
RECURSIVE Fwd(_, _)
Fwd(Ls, x) == IF Ls = <<>> THEN x ELSE Fwd(Tail(Ls), LFwd(Head(Ls), x))
RECURSIVE FwdDet(_, _)
FwdDet(Ls, x) == IF Ls = <<>> THEN 0 ELSE LDet(Head(Ls), x) + FwdDet(Tail(Ls), LFwd(Head(Ls), x))
\* the classes a point meets on its way: the flow is affine where they do not change
RECURSIVE Classes(_, _)
Classes(Ls, x) == IF Ls = <<>> THEN <<>> ELSE <<Class(Head(Ls), x)>> \o Classes(Tail(Ls), LFwd(Head(Ls), x))
\* the determinant of a 2 x 2 matrix of differences
Det2(a, b, c, d) == a * d - b * c
Whiten(x, mean, s) == [i \in 1..Len(x) |-> Shl(x[i] - mean[i], -s[i])]
Dewhiten(x, mean, s) == [i \in 1..Len(x) |-> Shl(x[i], s[i]) + mean[i]]
=============================================================================
