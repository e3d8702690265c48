------------------------------ MODULE AdamTrace -----------------------------
(* Recordings of the real optimizing strategy against Adam.tla. Positions in units of 1/65536.          *)
EXTENDS TraceLib, Adam
VARIABLES tid, l, st, bad
Ev == Traces[tid].ev
\* one configuration.  path[k][j][i]: coordinate i of chain j with k - 1 steps; a in units of 1/65536, c16 of 1/16;
\* lo, hi per dimension (NInf, PInf: none)
Lo(e, i) == IF e.lo[i] = NInf THEN -1000000000 ELSE e.lo[i]
Hi(e, i) == IF e.hi[i] = PInf THEN 1000000000 ELSE e.hi[i]
Grad(e, i, x) == (32 - e.a[i] + (e.c16[i] * x) \div 16) \div 64
Path(e) ==
  LET n == Len(e.path) - 1
      ch == 1..Len(e.path[1])
      dims == 1..Len(e.a)
      g(k, j, i) == [m \in 1..k |-> Grad(e, i, e.path[m][j][i])]
      want(k, j, i) == Project(e.path[k][j][i] + Disp(g(k, j, i), e.lr, 922, 1023), Lo(e, i), Hi(e, i))
      \* gradients are rounded to 1/1024
      tol(k, j, i) == e.tol + (3 * e.lr) \div Max(1, Isqrt(Avg(W(1023, k), [m \in 1..k |-> g(k, j, i)[m] * g(k, j, i)[m]])))
      slope(j, i) == -Grad(e, i, e.path[1][j][i])
  IN C(\A j \in ch, i \in dims : e.path[1][j][i] = e.start[j][i], "zero-steps-return-the-start")
     \o C(\A k \in 2..(n + 1), j \in ch, i \in dims : IsNum(e.path[k][j][i]) /\ Lo(e, i) - 1 <= e.path[k][j][i] /\ e.path[k][j][i] <= Hi(e, i) + 1, "out-of-bounds")
     \o C(\A k \in 1..n, j \in ch, i \in dims : Near(e.path[k + 1][j][i], want(k, j, i), tol(k, j, i)), "not-an-adam-step")
     \o (IF n >= 1 THEN C(\A j \in ch, i \in dims : slope(j, i) # 0 =>
             Near(e.path[2][j][i], Project(e.path[1][j][i] + Sgn(slope(j, i)) * e.lr, Lo(e, i), Hi(e, i)), 2), "first-step-uphill-by-learning-rate") ELSE <<>>)
\* one run (with or without noise)
Run(e) ==
  C(Len(e.out) = Len(e.start), "one-point-per-chain")
  \o C(\A j \in 1..Len(e.out), i \in 1..Len(e.a) : IsNum(e.out[j][i]) /\ (e.n > 0 => Lo(e, i) - 1 <= e.out[j][i] /\ e.out[j][i] <= Hi(e, i) + 1), "out-of-bounds")
  \o C(e.n = 0 => e.out = e.start, "zero-steps-return-the-start")
  \o C(NearSeq(e.lp, e.want, e.ltol), "log-probability-not-of-the-point")
  \o C(e.called = e.out, "call-and-optimize-differ")
  \o C(e.resources = "same", "resources-changed")
  \* noise scales the whole gradient: a first step moves all coordinates uphill or all downhill
  \o (IF e.n = 1 THEN C(\A j \in 1..Len(e.out) : \E s \in {-1, 1} : \A i \in 1..Len(e.a) :
        LET g == Grad(e, i, e.start[j][i]) IN g # 0 =>
            Near(e.out[j][i], Project(e.start[j][i] - s * Sgn(g) * e.lr, Lo(e, i), Hi(e, i)), 2), "noise-changes-direction") ELSE <<>>)
Alone(e) == C(\A j \in 1..Len(e.out) : NearSeq(e.out[j], e.one[j], 2), "chain-depends-on-others")
Refused(e) == C(e.got = e.want, "bounds-" \o e.what)
\* many chains from one start, one noisy step: how many went downhill, out of n; the expected number
Flips(e) == C((e.down - e.want) * (e.down - e.want) <= 36 * (e.want + 1), "noise-level:" \o e.what)
            \o C(e.distinct >= e.least, "chains-share-noise")
\* a constant slope: n steps are n times the learning rate uphill, as far as the bounds let
Straight(e) ==
  C(\A j \in 1..Len(e.out), i \in 1..Len(e.up) : IsNum(e.out[j][i]) /\
      Near(e.out[j][i], Project(e.start[j][i] + e.up[i] * e.n * e.lr, Lo(e, 1), Hi(e, 1)), e.tol), "not-all-steps-or-not-their-size:" \o e.what)
Step(w, e) ==
  [st |-> w, bad |-> CASE e.op = "path" -> Path(e) [] e.op = "run" -> Run(e) [] e.op = "alone" -> Alone(e)
                       [] e.op = "refused" -> Refused(e) [] e.op = "flips" -> Flips(e) [] e.op = "straight" -> Straight(e)]
Init == tid \in 1..Len(Traces) /\ l = 1 /\ st = 0 /\ bad = <<>>
Next == /\ l <= Len(Ev)
        /\ LET r == Step(st, Ev[l]) IN st' = r.st /\ bad' = Add(bad, l, r.bad)
        /\ l' = l + 1 /\ UNCHANGED tid
        /\ (l = Len(Ev) => Verdict(tid, bad'))
=============================================================================
