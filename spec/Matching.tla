------------------------------ MODULE Matching ------------------------------
(* Flow matching in exact arithmetic: time runs over N unit intervals, the velocity field moves a      *)
(* particle from interval k to k + 1 by x |-> 2^g[k] * x + c[k] (growth g, drift c), so it expands       *)
(* volume by 2^g[k].  Samples are carried forward over all intervals, log-densities (units of ln 2)      *)
(* are obtained by carrying a point back over the same intervals, accumulating the growth.               *)
EXTENDS Integers, Sequences
RECURSIVE P2(_)
P2(k) == IF k = 0 THEN 1 ELSE 2 * P2(k - 1)
Scale2(x, k) == IF k >= 0 THEN x * P2(k) ELSE x \div P2(-k)
FStep(f, k, x) == Scale2(x, f.g[k]) + f.c[k]
BStep(f, k, y) == Scale2(y - f.c[k], -f.g[k])
RECURSIVE SumTo(_, _)
SumTo(f, n) == IF n = 0 THEN 0 ELSE f[n] + SumTo(f, n - 1)
(* the training path, in units of 1/T of time: a point between noise x0 and data x1, and its velocity *)
PathPoint(x0, x1, t, T) == (T - t) * x0 + t * x1        \* units of 1/T
PathVel(x0, x1) == x1 - x0
=============================================================================
