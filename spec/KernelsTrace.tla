---------------------------- MODULE KernelsTrace ----------------------------
EXTENDS Kernels
VARIABLES tid, l, st, bad
Cfg == Traces[tid].cfg
Ev == Traces[tid].ev
T == Cfg.t
(* events:                                                                                        *)
(*  step: from x, the proposal y, the measured log-ratio r, the log-probability lp returned on      *)
(*        acceptance, and the state returned on rejection                                           *)
(*  hmc:  the same, with y0 the end point for a flat target                                         *)
(*  rare: how often large steps down are accepted                                                  *)
(*  stats: the noise (per dimension) and the uniform variates of many steps                        *)
\* positions are recorded to half a unit: what the gradients make of that
Slack(x, y) == SumFrom([i \in 1..Len(x) |-> Abs(Grad(T, x)[i]) + Abs(Grad(T, y)[i])], Len(x)) \div 4096
RatioTol(r) == 60 + Abs(r) \div 128
Common(e) == C(e.rej = e.x, "rejection-keeps-position") \o C(Near(e.rejlp, LogP(T, e.x), 40), "rejection-keeps-lp")
Langevin(e) ==
  LET r == IF Cfg.kind = "MALA" THEN LangevinRatio(T, Cfg.dt, e.x, e.y) ELSE WalkRatio(T, e.x, e.y)
  IN C(Near(e.r, r, RatioTol(r) + Slack(e.x, e.y)), "acceptance-ratio")
     \o C(Near(e.lp, LogP(T, e.y), 40 + Slack(e.x, e.y)), "accepted-lp")
     \o (IF Cfg.kind = "MALA"
         THEN C(NearSeq([i \in 1..Len(e.x) |-> e.y[i] - e.x[i] - MulF(Grad(T, e.x)[i], Half(Cfg.dt)[i])],
                        [i \in 1..Len(e.x) |-> e.y0[i] - e.x[i]], 12), "drift")
         ELSE C(NearSeq(e.y, e.y0, 3), "drift"))
     \o Common(e)
Momentum(e, k) == MatVecF(Cfg.minv, [i \in 1..Len(e.x) |-> DivF(e.y0[i] - e.x[i], Cfg.eps * k)])
HmcOk(e, k) ==
  LET s0 == [x |-> e.x, p |-> Momentum(e, k)]
      s1 == Leapfrog(T, Cfg.m, Cfg.eps, s0, k)
      r == Energy(T, Cfg.m, s0) - Energy(T, Cfg.m, s1)
  IN [traj |-> NearSeq(e.y, s1.x, Cfg.ytol), ratio |-> Near(e.r, r, Cfg.rtol + Abs(r) \div 64 + Slack(e.x, s1.x))]
\* the number of drifts: the configured number of steps, or one more; the same in every event
Hmc(e, k) == LET h == HmcOk(e, k) IN
  C(h.traj, "leapfrog-trajectory") \o C(h.ratio, "acceptance-ratio")
  \o C(Near(e.lp, LogP(T, e.y), 60 + Slack(e.x, e.y)), "accepted-lp") \o Common(e)
Ks == {Cfg.n, Cfg.n + 1}
BestK == IF \A e \in Range(SelectSeq(Ev, LAMBDA v : v.op = "hmc")) : HmcOk(e, Cfg.n).traj THEN Cfg.n ELSE Cfg.n + 1

\* noise, whitened: w times the displacement per unit step
Whitened(e) == IF Cfg.kind = "HMC"
  THEN [i \in 1..Len(e.z) |-> MatVecF(Cfg.w, [j \in 1..Len(e.z[i]) |-> DivF(e.z[i][j], Cfg.eps * st.k)])]
  ELSE [i \in 1..Len(e.z) |-> [j \in 1..Len(e.z[i]) |-> DivF(e.z[i][j], Cfg.dt[j])]]
Stats(e) ==
  LET wh == Whitened(e)
      d == Len(wh[1])
      col == [j \in 1..d |-> [i \in 1..Len(wh) |-> wh[i][j]]]
      \* octiles 0.674 of |z|: median
  IN C(\A j \in 1..d : NormOk(col[j]), "noise-not-standard-normal")
     \o C(\A j, k \in 1..d : j < k => IndepOk(col[j], col[k], 0, 0) /\ IndepOk(AbsSeq(col[j]), AbsSeq(col[k]), 2763, 2763),
          "noise-components-dependent")
     \o C(UnifOk(e.u), "acceptance-variate-not-uniform")
     \o C(\A j \in 1..d : IndepOk(col[j], e.u, 0, 2048) /\ IndepOk(AbsSeq(col[j]), e.u, 2763, 2048),
          "acceptance-variate-depends-on-noise")

\* the scale and the tails of the noise, summed up over blocks: the sum of the squares has variance 2n; 1 in 100
\* are beyond 2.5758
Gather(w, e) ==
  LET wh == Whitened(e)
      n == Len(wh) d == Len(wh[1])
      sq == [j \in 1..d |-> SumFrom([i \in 1..n |-> LET z == ClampTo(wh[i][j], 40000) IN MulF(z, z)], n) \div 64]
      far == Cardinality({k \in (1..n) \X (1..d) : Abs(wh[k[1]][k[2]]) > 10551})
  IN [w EXCEPT !.n = @ + n, !.d = d, !.far = @ + far, !.sq = IF @ = <<>> THEN sq ELSE AddV(@, sq)]
Tails(w) == C(\A j \in 1..w.d : LET x == w.sq[j] \div 64 IN (x - w.n) * (x - w.n) <= 72 * w.n, "noise-scale")
            \o C(CountOk(w.far, (w.n * w.d) \div 100), "noise-tails")

\* the whitening matrix given is right: w m w' = 1
Identity(d) == [i \in 1..d |-> [j \in 1..d |-> IF i = j THEN SC ELSE 0]]
Col(m, j) == [i \in 1..Len(m) |-> m[i][j]]
MatMul(a, b) == [i \in 1..Len(a) |-> [j \in 1..Len(b[1]) |-> DotF(a[i], Col(b, j))]]
Transpose(a) == [i \in 1..Len(a[1]) |-> Col(a, i)]
MatNear(a, b, tol) == \A i \in 1..Len(a) : NearSeq(a[i], b[i], tol)
SetupOk == Cfg.kind = "HMC" => /\ MatNear(MatMul(Cfg.m, Cfg.minv), Identity(Len(Cfg.m)), 40)
                              /\ MatNear(MatMul(Cfg.w, MatMul(Cfg.m, Transpose(Cfg.w))), Identity(Len(Cfg.m)), 60)
Step(w, e) ==
  IF e.op = "setup" THEN [st |-> [w EXCEPT !.k = IF Cfg.kind = "HMC" THEN BestK ELSE 0], bad |-> C(SetupOk, "machinery-setup")]
  ELSE IF e.op = "step" THEN [st |-> w, bad |-> Langevin(e)]
  ELSE IF e.op = "hmc" THEN [st |-> w, bad |-> Hmc(e, w.k)]
  ELSE IF e.op = "rare" THEN [st |-> w, bad |-> C(RareOk(e), "rare-acceptances")]
  ELSE IF e.op = "noise" THEN [st |-> Gather(w, e), bad |-> <<>>]
  ELSE IF e.op = "tails" THEN [st |-> w, bad |-> Tails(w)]
  ELSE [st |-> w, bad |-> Stats(e)]
Init == tid \in 1..Len(Traces) /\ l = 1 /\ st = [k |-> 0, n |-> 0, d |-> 0, far |-> 0, sq |-> <<>>] /\ bad = <<>>
Next == /\ l <= Len(Ev)
        /\ LET r == Step(st, Ev[l]) IN st' = r.st /\ bad' = Add(bad, l, r.bad)
        /\ l' = l + 1 /\ UNCHANGED tid
        /\ (l = Len(Ev) => Verdict(tid, bad'))
=============================================================================
