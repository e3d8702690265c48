---------------------------- MODULE MatchingTrace ---------------------------
(* Recordings of real flow-matching components on fields with known solutions against Matching.tla:      *)
(* the whole evolution from time zero to one is x |-> M x + b for linear fields.  Units 1/4096.            *)
EXTENDS TraceLib
VARIABLES tid, l, st, bad
Ev == Traces[tid].ev
LogTwoPiHalf == 3764          \* ln(2 pi) / 2
LogNormal(x) == -(SumFrom([i \in 1..Len(x) |-> MulF(x[i], x[i])], Len(x)) \div 2) - Len(x) * LogTwoPiHalf
Image(e, z) ==
  CASE e.kind = "linear" -> AddV(MatVecF(e.m, z), e.b)
    \* x1 moves by om * x2^2, all other coordinates stay
    [] e.kind = "shear" -> [i \in 1..Len(z) |-> IF i = 1 /\ Len(z) > 1 THEN z[1] + MulF(e.om, MulF(z[2], z[2])) ELSE z[i]]
Agree(e, z, y) ==
  IF e.kind = "cubic"       \* v = -a x^3: 1/y^2 = 1/x^2 + 2a, so y^2 (1 + 2 a x^2) = x^2, y and x on one side
  THEN \A i \in 1..Len(z) : Sgn(z[i]) * Sgn(y[i]) >= 0 /\ Near(MulF(MulF(y[i], y[i]), SC + 2 * MulF(e.a[i], MulF(z[i], z[i]))), MulF(z[i], z[i]), e.tol + Abs(z[i]) \div 100)
  ELSE LET w == Image(e, z) IN \A i \in 1..Len(z) : Near(y[i], w[i], e.tol + Abs(w[i]) \div 1000)
\* samples of the field and of the motionless field with the same key
Carry(e) ==
  C(Len(e.smp) = e.n /\ Len(e.x0) = e.n /\ \A j \in 1..Len(e.smp) : Len(e.smp[j]) = e.nd, "not-n-points")
  \o (IF Len(e.smp) = Len(e.x0) THEN
      C(\A j \in 1..Len(e.smp) : Agree(e, e.x0[j], [i \in 1..e.nd |-> DivF(e.smp[j][i] - e.mean[i], e.std[i])]), "not-carried-along-the-field:" \o e.what) ELSE <<>>)
\* log-density of a point whose origin is known: the normal density of the origin, minus the expansion, minus the whitening
Density(e) == IF ~IsNum(e.lp) THEN <<"density-not-a-number">> ELSE C(Near(e.lp, LogNormal(e.x0) - e.ld - Sum(e.lnstd), e.tol + Abs(e.lp) \div e.rel), "density-formula:" \o e.what)
\* draws: counts in the four quartiles of the normal distribution per dimension, and of signs of pairs of dimensions
Draws(e) == C(\A k \in 1..Len(e.count) : LET d == e.count[k] - e.n \div 4 IN d * d <= 36 * (e.n \div 5), "not-standard-normal:" \o e.what)
\* path points at times t for a scheduler with values al, dal, si, dsi
PathAt(e) ==
  LET rows == 1..Len(e.xt) IN
  C(\A j \in rows : \A i \in 1..Len(e.xt[j]) : Near(e.xt[j][i], MulF(e.x0[j][i], e.si[j]) + MulF(e.x1[j][i], e.al[j]), e.tol), "path-point:" \o e.what)
  \o C(\A j \in rows : \A i \in 1..Len(e.xt[j]) : Near(e.dx[j][i], MulF(e.x0[j][i], e.dsi[j]) + MulF(e.x1[j][i], e.dal[j]), e.tol), "path-velocity:" \o e.what)
\* the optimal-transport path: ends at noise and data, and its velocity is its derivative between any two times
Ends(e) ==
  LET n == Len(e.xt)  dims == 1..Len(e.x0) IN
  C(NearSeq(e.xt[1], e.x0, e.tol), "path-does-not-start-at-the-noise")
  \o C(NearSeq(e.xt[n], e.x1, e.tol), "path-does-not-end-at-the-data")
  \o C(\A j \in 1..(n - 1) : \A i \in dims : Near(e.xt[j + 1][i] - e.xt[j][i], MulF(e.dx[j][i], e.t[j + 1] - e.t[j]), e.tol), "velocity-is-not-the-derivative")
\* one epoch: the batches the path was asked for; every row of a batch is one example: noise, whitened data and time of one row
Row(e, r) == {k \in 1..Len(e.t) : Near(e.t[k], r.t, 1) /\ NearSeq(e.x0[k], r.x0, e.tol) /\ \A i \in 1..Len(r.x1) : Near(MulF(r.x1[i], e.std[i]) + e.mean[i], e.x1[k][i], e.tol)}
Epoch(e) ==
  LET rows == Len(e.t)
      nb == IF e.batch > rows THEN 1 ELSE rows \div e.batch
      size == IF e.batch > rows THEN rows ELSE e.batch
      used == {<<i, j>> \in (1..Len(e.batches)) \X (1..size) : j <= Len(e.batches[i])}
  IN C(Len(e.batches) = nb /\ \A i \in 1..Len(e.batches) : Len(e.batches[i]) = size, "batches")
     \o C(\A u \in used : Row(e, e.batches[u[1]][u[2]]) # {}, "pairs-not-of-one-example")
     \o C(\A u, v \in used : u # v => Row(e, e.batches[u[1]][u[2]]) \cap Row(e, e.batches[v[1]][v[2]]) = {}, "example-twice-in-an-epoch")
\* a loss: predicted velocities v and targets d
Loss(e) ==
  LET n == Len(e.v)  k == Len(e.v[1])
      sq == SumFrom([j \in 1..n |-> SumFrom([i \in 1..k |-> LET z == e.v[j][i] - e.d[j][i] IN MulF(z, z)], k)], n)
  IN C(Near(e.loss, sq \div (n * k), e.tol + e.loss \div 500), "loss:" \o e.what)
Same(e) == C(e.got = e.want, e.what)
Step(w, e) ==
  [st |-> w, bad |-> CASE e.op = "carry" -> Carry(e) [] e.op = "density" -> Density(e) [] e.op = "draws" -> Draws(e) [] e.op = "path" -> PathAt(e)
                       [] e.op = "ends" -> Ends(e) [] e.op = "epoch" -> Epoch(e) [] e.op = "loss" -> Loss(e) [] e.op = "same" -> Same(e)]
Init == tid \in 1..Len(Traces) /\ l = 1 /\ st = 0 /\ bad = <<>>
Next == /\ l <= Len(Ev)
        /\ LET r == Step(st, Ev[l]) IN st' = r.st /\ bad' = Add(bad, l, r.bad)
        /\ l' = l + 1 /\ UNCHANGED tid
        /\ (l = Len(Ev) => Verdict(tid, bad'))
=============================================================================
