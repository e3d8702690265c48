------------------------------ MODULE FlowTrace -----------------------------
(* Recordings of real flows and layers: points and log-determinants in units of 1/65536.               *)
EXTENDS TraceLib
VARIABLES tid, l, st, bad
Ev == Traces[tid].ev
Nums(s) == \A i \in 1..Len(s) : IsNum(s[i])
\* one way and back: from, to, back; the log-determinants of both ways; log |det| of the Jacobian of the
\* first way as measured in several ways
Trip(e) ==
  C(Nums(e.to) /\ Nums(e.back) /\ IsNum(e.ld1) /\ IsNum(e.ld2), "not-a-number:" \o e.way)
  \o C(NearSeq(e.back, e.from, e.tol), "not-inverse:" \o e.way)
  \o C(Near(e.ld1 + e.ld2, 0, e.tol), "log-determinants-do-not-cancel:" \o e.way)
  \o C(\E m \in 1..Len(e.ldj) : Near(e.ld1, e.ldj[m], 2 * e.tol), "log-determinant-not-of-the-jacobian:" \o e.way)
  \o C(Len(e.to) = Len(e.from), "dimension:" \o e.way)
  \o C(NearSeq(e.call, e.to, e.tol), "call-is-not-forward:" \o e.way)
\* points along a line through the whole spline range: strictly increasing images (a bijection of the line)
Line(e) == C(\A j \in 1..(Len(e.y) - 1) : e.y[j] < e.y[j + 1], "not-increasing")
\* a sample request: base draws z, their inverse images (by the model), the samples; mean and std in 1/4096
Sample(e) ==
  C(Len(e.smp) = e.n /\ \A j \in 1..Len(e.smp) : Len(e.smp[j]) = e.nd, "not-n-points")
  \o C(e.asked = e.n, "base-asked-for-other-number")
  \o C(\A j \in 1..Min(Len(e.smp), Len(e.img)) : \A i \in 1..e.nd :
        Near(e.smp[j][i], MulF(e.img[j][i], e.std[i]) + e.mean[i], e.tol + Abs(e.img[j][i]) \div 6000), "sample-is-not-dewhitened-inverse-image")
\* a density: point x, whitened w, forward image log-determinant ld, base log-density b at that image
Density(e) ==
  LET dims == 1..Len(e.x) IN
  C(\A i \in dims : Near(e.x[i], MulF(e.w[i], e.std[i]) + e.mean[i], e.tol + Abs(e.w[i]) \div 6000), "whitening")
  \o C(Near(e.lp, e.b + e.ld - Sum(e.lnstd), e.tol), "density-formula:" \o e.what)
\* a flow's own samples against its density: expected masses of cells (of 1 000 000) and counts of e.n samples
Mass(e) ==
  LET cells == 1..Len(e.mass)
      want(k) == ((e.mass[k] \div 100) * e.n) \div 10000
      d(k) == e.count[k] - want(k)
  IN C(Abs(Sum(e.mass) + e.rest - 1000000) <= e.rtol, "density-does-not-integrate-to-one:" \o e.what)
     \o C(Sum(e.count) + e.out = e.n, "not-n-points:" \o e.what)
     \* six standard deviations and the resolution of the grid
     \o C(\A k \in cells : d(k) * d(k) <= 36 * (want(k) + 4) + ((e.res * want(k)) \div 1000) * ((e.res * want(k)) \div 1000), "samples-not-from-density:" \o e.what)
\* a density composed of densities of consecutive coordinates: the sum, each part at its own coordinates
Composed(e) ==
  LET ps == 1..Len(e.parts) IN
  C(\A k \in ps : e.parts[k].x = SubSeq(e.x, e.parts[k].lo + 1, e.parts[k].hi), "recording")
  \o C(\A j, k \in ps : j < k => e.parts[j].hi <= e.parts[k].lo \/ e.parts[k].hi <= e.parts[j].lo, "recording")
  \o C(IsNum(e.lp) /\ Near(e.lp, Sum([k \in ps |-> e.parts[k].lp]), 40 + Sum([k \in ps |-> Abs(e.parts[k].lp) \div 2000])), "composed-density-is-not-the-sum-of-its-parts")
\* far draws of a standard normal base: two-sided tails beyond 2, 3, 3.5 and 4, in a million; of pairs (1,1), (2,1), (1,2), (2,2)
TailPpm == <<45500, 2700, 465, 63>>
PairPpm == <<100686, 14438, 14438, 2070>>
FarOk(e) == \A k \in 1..4 : LET m == ((e.n \div 1000) * (IF e.dim = 0 THEN PairPpm ELSE TailPpm)[k]) \div 1000
                             d == e.beyond[k] - m IN d * d <= 36 * (m + 1)
Same(e) == C(e.got = e.want, e.what)
Close(e) == C(NearSeq(e.got, e.want, e.tol), e.what)
Step(w, e) ==
  [st |-> w, bad |-> CASE e.op = "trip" -> Trip(e) [] e.op = "line" -> Line(e) [] e.op = "sample" -> Sample(e)
                       [] e.op = "density" -> Density(e) [] e.op = "mass" -> Mass(e) [] e.op = "same" -> Same(e) [] e.op = "composed" -> Composed(e) [] e.op = "close" -> Close(e)
                       [] e.op = "tail" -> C(FarOk(e), "far-draws")]
Init == tid \in 1..Len(Traces) /\ l = 1 /\ st = 0 /\ bad = <<>>
Next == /\ l <= Len(Ev)
        /\ LET r == Step(st, Ev[l]) IN st' = r.st /\ bad' = Add(bad, l, r.bad)
        /\ l' = l + 1 /\ UNCHANGED tid
        /\ (l = Len(Ev) => Verdict(tid, bad'))
=============================================================================
