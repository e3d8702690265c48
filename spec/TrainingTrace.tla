---------------------------- MODULE TrainingTrace ---------------------------
(* Recordings of the real training code against Training.tla.                                        *)
EXTENDS TraceLib, Training, Adam
VARIABLES tid, l, st, bad
Ev == Traces[tid].ev
BadLoss(x) == ~IsNum(x)

Count(s, v) == Cardinality({i \in 1..Len(s) : s[i] = v})
\* a binomial count with mean m = n/k: within six standard deviations
NearMean(c, m) == (c - m) * (c - m) <= 36 * (m + 1)

(* --- selection: cells[c][k] the recorded vector (a component may be no number), rows: what training   *)
(* was given --- *)
Finite(cell) == \A i \in 1..Len(cell) : IsNum(cell[i])
Select(e) ==
  LET ok == [c \in 1..Len(e.cells) |-> Recent([k \in 1..Len(e.cells[c]) |-> Finite(e.cells[c][k])], e.hist)]
      elig == {<<c, k>> \in (1..Len(e.cells)) \X (1..Len(e.cells[1])) : k \in ok[c]}
      vals == {e.cells[x[1]][x[2]] : x \in elig}
      all == {e.cells[c][k] : c \in 1..Len(e.cells), k \in 1..Len(e.cells[1])}
  IN C(Len(e.rows) = e.n, "number-of-examples")
     \o C(\A i \in 1..Len(e.rows) : e.rows[i] \in all, "example-not-a-recorded-sample")
     \o C(\A i \in 1..Len(e.rows) : Finite(e.rows[i]), "example-not-finite")
     \o C(\A i \in 1..Len(e.rows) : e.rows[i] \in all /\ Finite(e.rows[i]) => e.rows[i] \in vals, "example-not-recent")
     \* many draws: every eligible sample equally often (a value as often as it was recorded); as many draws as samples: some repeat
     \o (IF e.n >= 40 * Cardinality(elig)
         THEN C(\A v \in vals : NearMean(Count(e.rows, v), (e.n * Cardinality({x \in elig : e.cells[x[1]][x[2]] = v})) \div Cardinality(elig)),
                "examples-not-uniform") ELSE <<>>)
     \o (IF e.repeats THEN C(Cardinality(Range(e.rows)) < Len(e.rows), "examples-without-replacement") ELSE <<>>)
     \o C(e.data = "same", "recorded-samples-changed")
     \o C(e.passed = e.configured, "configuration-not-passed-on")

(* --- one training run.  batches: [ver, opt, rows]: the version of the parameters at which a batch was   *)
(* used, in the order of the versions; table[v]: the loss at version v - 1 --- *)
Train(e) ==
  LET S == PerEpoch(e.n, e.b)
      B == BatchLen(e.n, e.b)
      Rows(ep, k) == e.batches[(ep - 1) * S + k].rows
      want == [ep \in 1..e.ep |-> e.table[e.v0 + ep * S]]
      best == Best(want, BadLoss)
  IN C(Len(e.batches) = e.ep * S, "number-of-batches")
     \o C(\A i \in 1..Len(e.batches) : e.batches[i].ver = e.v0 + i - 1, "batch-not-from-previous-parameters")
     \o C(\A i \in 1..Len(e.batches) : Len(e.batches[i].rows) = B, "batch-size")
     \o C(\A i \in 1..Len(e.batches) : Range(e.batches[i].rows) \subseteq 1..e.n, "batch-rows")
     \o (IF Len(e.batches) = e.ep * S
         THEN C(\A ep \in 1..e.ep : Cardinality(UNION {Range(Rows(ep, k)) : k \in 1..S}) = S * B, "batches-not-disjoint") ELSE <<>>)
     \o C(Len(e.losses) = e.ep, "loss-history-length")
     \o C(Len(e.losses) = e.ep => \A ep \in 1..e.ep : Near(e.losses[ep], want[ep], e.tol), "loss-history")
     \o C(e.ver = e.v0 + best * S, "not-the-best-epoch")
     \o C(e.opt = e.v0 + best * S, "not-the-optimizer-state-of-the-best-epoch")
     \o C(e.stat = (IF best = 0 THEN "unchanged" ELSE "data"), "statistics")
     \o C(e.inputs = "same", "inputs-changed")
     \* the order over many epochs is random: every example starts (is dropped) equally often
     \o (IF e.ep >= 60 /\ Len(e.batches) = e.ep * S
         THEN C(\A r \in 1..e.n : NearMean(Cardinality({ep \in 1..e.ep : Rows(ep, 1)[1] = r}), e.ep \div e.n), "order-not-random")
              \o C(\A r \in 1..e.n : NearMean(Cardinality({ep \in 1..e.ep : Rows(ep, S)[B] = r}), e.ep \div e.n), "order-not-random")
              \o C(\A r \in 1..e.n : NearMean(Cardinality({ep \in 1..e.ep : \A k \in 1..S : r \notin Range(Rows(ep, k))}),
                                             (e.ep * (e.n - S * B)) \div e.n), "same-examples-left-out")
         ELSE <<>>)
\* the strategy: losses go to the loss history, model and optimizer to the resources
Strategy(e) ==
  C(e.ver = e.wantver /\ e.opt = e.wantopt, "strategy-keeps-result")
  \o C(NearSeq(e.history, e.want, e.tol), "strategy-loss-history")
  \o C(e.cursor = e.wantcursor, "strategy-loss-cursor")
  \o C(e.other = "same", "strategy-changed-other-resources")

(* --- P17: what training may change --- *)
Kept(e) == C(e.after = e.before, "not-trainable-changed:" \o e.what)
Moved(e) == C(e.after # e.before, "trainable-unchanged:" \o e.what)
Stats(e) == C(NearSeq(e.got, e.want, e.tol), "whitening:" \o e.what)
\* the mean and the unbiased covariance of the examples, which are integers; got in units of 1 / e.unit
Whiten(e) ==
  LET n == Len(e.rows)
      nd == Len(e.rows[1])
      S1(i) == SumFrom([k \in 1..n |-> e.rows[k][i]], n)
      S2(i, j) == SumFrom([k \in 1..n |-> e.rows[k][i] * e.rows[k][j]], n)
      Mean(i) == (S1(i) * e.unit) \div n
      Cov(i, j) == LET num == n * S2(i, j) - S1(i) * S1(j)  den == n * (n - 1)
                   IN (num \div den) * e.unit + ((num % den) * e.unit) \div den
  IN C(Len(e.mean) = nd /\ \A i \in 1..nd : Near(e.mean[i], Mean(i), 2), "whitening:mean")
     \o C(Len(e.cov) = nd /\ \A i, j \in 1..nd : Len(e.cov[i]) = nd /\ Near(e.cov[i][j], Cov(i, j), 3), "whitening:covariance")
\* successive steps along the gradients g of the mean negative log-density of the batch (clipped), in
\* units of 1/1024; d: the displacements, in units of lr / 10000
Follow(e) ==
  LET G == [k \in 1..Len(e.g) |-> IF e.clip THEN Clip(e.g[k]) ELSE e.g[k]]
      n == Len(e.g)
      D(k, i) == Disp([j \in 1..k |-> G[j][i]], 10000, e.b1, e.b2)
  IN C(Len(e.d) = n, "machinery-steps")
     \o C(\A i \in 1..Len(e.g[1]) : e.g[1][i] # 0 => Sgn(e.d[1][i]) = -Sgn(e.g[1][i]), "against-the-gradient:" \o e.what)
     \o C(\A k \in 1..n : \A i \in 1..Len(e.g[k]) : Abs(e.d[k][i] - D(k, i)) <= e.tol, "step:" \o e.what)
Better(e) == C(e.after > e.before, "fit-not-improved:" \o e.what)

Step(w, e) ==
  [st |-> w, bad |-> CASE e.op = "select" -> Select(e) [] e.op = "train" -> Train(e) [] e.op = "strategy" -> Strategy(e)
                       [] e.op = "kept" -> Kept(e) [] e.op = "moved" -> Moved(e) [] e.op = "whiten" -> Whiten(e)
    [] e.op = "stats" -> Stats(e)
                       [] e.op = "follow" -> Follow(e) [] e.op = "better" -> Better(e)]
Init == tid \in 1..Len(Traces) /\ l = 1 /\ st = 0 /\ bad = <<>>
Next == /\ l <= Len(Ev)
        /\ LET r == Step(st, Ev[l]) IN st' = r.st /\ bad' = Add(bad, l, r.bad)
        /\ l' = l + 1 /\ UNCHANGED tid
        /\ (l = Len(Ev) => Verdict(tid, bad'))
=============================================================================
