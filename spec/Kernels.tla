------------------------------- MODULE Kernels ------------------------------
(* Local kernels in fixed point: the polynomial target and its gradient, the Langevin proposal and  *)
(* its acceptance ratio, the leapfrog integrator and its energy error.                              *)
EXTENDS TraceLib
(* target parameters: mu, prec, quart, mix, c:                                                     *)
(*   -1/2 sum prec (x-mu)^2 - quart sum x^4 + mix x_1 x_d + c                                        *)
Sq(a) == MulF(a, a)
LogP(t, x) ==
  LET d == Len(x)
      \* (parts that are absent are not evaluated: far from the origin they would not fit in 32 bits)
      quad == SumFrom([i \in 1..d |-> MulF(Sq(x[i] - t.mu[i]), t.prec[i])], d)
      qt == SumFrom([i \in 1..d |-> Sq(Sq(x[i]))], d)
  IN t.c - (quad \div 2) - (IF t.quart = 0 THEN 0 ELSE MulF(qt, t.quart)) + (IF t.mix = 0 THEN 0 ELSE MulF(MulF(x[1], x[d]), t.mix))
Grad(t, x) ==
  LET d == Len(x) IN
  [i \in 1..d |-> -MulF(x[i] - t.mu[i], t.prec[i]) - (IF t.quart = 0 THEN 0 ELSE 4 * MulF(MulF(Sq(x[i]), x[i]), t.quart))
                  + (IF i = 1 THEN MulF(x[d], t.mix) ELSE 0) + (IF i = d THEN MulF(x[1], t.mix) ELSE 0)]

(* Langevin with step size dt (per component): mean of the proposal, noise, and the ratio.          *)
(* With e = y-x, h = dt^2/2, the difference of the two Gaussian log-densities                        *)
(* (|e - h gx|^2 - |-e - h gy|^2)/(4h) simplifies to -(2e - h(gx-gy)).(gx+gy)/4 ... times h/h.         *)
Half(dt) == [i \in 1..Len(dt) |-> Sq(dt[i]) \div 2]
Noise(t, dt, x, y) == LET g == Grad(t, x) h == Half(dt)
  IN [i \in 1..Len(x) |-> DivF(y[i] - x[i] - MulF(g[i], h[i]), dt[i])]
LangevinRatio(t, dt, x, y) ==
  LET gx == Grad(t, x) gy == Grad(t, y) h == Half(dt) d == Len(x)
      corr == SumFrom([i \in 1..d |-> MulF(2 * (y[i] - x[i]) - MulF(gx[i] - gy[i], h[i]), gx[i] + gy[i])], d)
  IN LogP(t, y) - LogP(t, x) - (corr \div 4)
WalkRatio(t, x, y) == LogP(t, y) - LogP(t, x)

(* Leapfrog: half kick, k drifts with k-1 full kicks between them, half kick.                       *)
KickF(t, eps, s, half) == [s EXCEPT !.p = AddV(s.p, ScaleF(IF half THEN eps \div 2 ELSE eps, Grad(t, s.x)))]
DriftF(m, eps, s) == [s EXCEPT !.x = AddV(s.x, ScaleF(eps, MatVecF(m, s.p)))]
RECURSIVE Inner(_, _, _, _, _)
Inner(t, m, eps, s, k) == IF k = 0 THEN s ELSE Inner(t, m, eps, KickF(t, eps, DriftF(m, eps, s), FALSE), k - 1)
Leapfrog(t, m, eps, s, k) == KickF(t, eps, DriftF(m, eps, Inner(t, m, eps, KickF(t, eps, s, TRUE), k - 1)), TRUE)
Kinetic(m, p) == DotF(p, MatVecF(m, p)) \div 2
Energy(t, m, s) == Kinetic(m, s.p) - LogP(t, s.x)

(* ---- statistics of a sample of n numbers, as counts against expected counts ---- *)
Count(s, lo, hi) == Cardinality({i \in 1..Len(s) : lo <= s[i] /\ s[i] < hi})
\* |count - expected| <= 6 sigma, sigma^2 <= expected
\* (and the squares stay within 32 bits)
CountOk(c, expected) == Abs(c - expected) < 40000 /\ (c - expected) * (c - expected) <= 36 * expected
\* a step down by 2, 6, 8 or 10 is accepted this often in a million
RarePpm == <<135335, 2479, 335, 45>>
RareOk(e) == \A k \in 1..Len(RarePpm) : CountOk(e.count[k], ((e.n \div 1000) * RarePpm[k]) \div 1000)
\* standard normal octiles, scale SC: 1/8 each
NormCuts == <<-1000000000, -4712, -2763, -1305, 0, 1305, 2763, 4712, 1000000000>>
NormOk(s) == \A k \in 1..8 : CountOk(Count(s, NormCuts[k], NormCuts[k + 1]), Len(s) \div 8)
UnifOk(s) == \A k \in 0..7 : CountOk(Count(s, k * 512, (k + 1) * 512), Len(s) \div 8)
Quadrant(a, b, ca, cb, sa, sb) == Cardinality({i \in 1..Len(a) : ((a[i] >= ca) <=> sa) /\ ((b[i] >= cb) <=> sb)})
IndepOk(a, b, ca, cb) == \A sa, sb \in BOOLEAN : CountOk(Quadrant(a, b, ca, cb, sa, sb), Len(a) \div 4)
\* independent of each other also in size: |a| against b
AbsSeq(a) == [i \in 1..Len(a) |-> Abs(a[i])]
=============================================================================
