---------------------------- MODULE RecordsTrace ----------------------------
(* Records of chains: every record is one state, invalid proposals are rejected, global steps follow *)
(* the independence Metropolis-Hastings rule.                                                       *)
EXTENDS Kernels, Steps
VARIABLES tid, l, st, bad
Cfg == Traces[tid].cfg
Ev == Traces[tid].ev

Ext(v) == IF IsNum(v) THEN Num(v) ELSE IF v = NaN THEN NaN_ ELSE IF v = PInf THEN PI_ ELSE NI_

(* --- one stepping call with a real kernel: per chain the rows [b(its of the position), lp, t(arget *)
(* value at the recorded position), a(ccepted)] and the start [b, t] ---                             *)
RowsOk(c, full, tol) ==
  LET n == Len(c.rows)
      prev(k) == IF k = 1 THEN [b |-> c.b0, lp |-> c.t0] ELSE [b |-> c.rows[k - 1].b, lp |-> c.rows[k - 1].lp]
  IN C(\A k \in 1..n : Near(c.rows[k].lp, c.rows[k].t, tol) , "lp-is-not-that-of-position")
     \o C(\A k \in 1..n : c.rows[k].a \in {0, 1}, "flag-not-0-or-1")
     \o (IF full
         THEN C(\A k \in 1..n : c.rows[k].a = 1 <=> c.rows[k].b # prev(k).b, "flag-iff-moved")
              \o C(\A k \in 1..n : c.rows[k].a = 0 => (c.rows[k].b = prev(k).b /\ Near(c.rows[k].lp, prev(k).lp, tol)), "rejected-keeps-state")
         ELSE <<>>)
     \o C(n = 0 \/ c.ret = c.rows[n].b \/ ~full, "handed-on-state")
Call(e) == FlatBad([i \in 1..Len(e.chains) |-> RowsOk(e.chains[i], e.full, e.tol)])
           \o (IF e.finite THEN C(\A i \in 1..Len(e.chains) : IsNum(e.chains[i].t0) => \A k \in 1..Len(e.chains[i].rows) :
                                    IsNum(e.chains[i].rows[k].lp) /\ IsNum(e.chains[i].rows[k].t), "non-finite-recorded") ELSE <<>>)
           \o (IF e.full THEN C(e.moved <=> \E i \in 1..Len(e.chains) : \E k \in 1..Len(e.chains[i].rows) : e.chains[i].rows[k].a = 1, "machinery-moved") ELSE <<>>)

(* --- one step whose proposal is invalid (or of undefined ratio) --- *)
One(e) == C(e.a = 0, "invalid-accepted-" \o e.what) \o C(e.b = e.b0, "position-left-" \o e.what)
          \o C(e.lp = e.lp0, "lp-left-" \o e.what)
(* --- a symmetric step to a valid proposal from a start of probability zero --- *)
Rev(e) == C(e.a = 1 /\ e.b # e.b0 /\ Near(e.lp, e.t, 8), "not-left-minus-infinity")

(* --- a sequence of global steps along known proposals --- *)
RECURSIVE Follow(_, _, _)
Follow(e, k, cur) ==
  IF k > Len(e.props) THEN <<>> ELSE
  LET p == e.props[k]
      r == Ratio(cur.lp, Ext(p.lp), Plus(cur.q, Neg(Ext(p.q))))
      a == Accepts(Num(e.lu[k]), r)
      close == IsN(r) /\ Abs(r[2] - e.lu[k]) <= e.tol
      obs == e.acc[k] = 1
      nxt == IF obs THEN [lp |-> Ext(p.lp), q |-> Ext(p.q), id |-> p.id] ELSE cur
  IN C(obs = a \/ close, "wrong-decision")
     \o C(e.pos[k] = nxt.id, "wrong-state")
     \o C(e.lps[k] = (IF obs THEN p.lp ELSE e.lpcur[k]), "wrong-lp")
     \o Follow(e, k + 1, nxt)
Path(e) == Follow(e, 1, [lp |-> Ext(e.lp0), q |-> Ext(e.q0), id |-> e.id0])
(* --- the proposals and acceptance variates of many runs --- *)
Draws(e) ==
  LET n == Len(e.ids)
      flat == [i \in 1..(n * e.n) |-> e.ids[1 + ((i - 1) \div e.n)][1 + ((i - 1) % e.n)]]
      us == [i \in 1..(n * e.n) |-> e.u[1 + ((i - 1) \div e.n)][1 + ((i - 1) % e.n)]]
      same == Len(flat) - Cardinality(Range(flat))
      \* consecutive pairs inside one run
      pa == [i \in 1..(n * (e.n - 1)) |-> e.u[1 + ((i - 1) \div (e.n - 1))][1 + ((i - 1) % (e.n - 1))]]
      pb == [i \in 1..(n * (e.n - 1)) |-> e.u[1 + ((i - 1) \div (e.n - 1))][2 + ((i - 1) % (e.n - 1))]]
      fa == [i \in 1..(n * (e.n - 1)) |-> e.ids[1 + ((i - 1) \div (e.n - 1))][1 + ((i - 1) % (e.n - 1))]]
      fb == [i \in 1..(n * (e.n - 1)) |-> e.ids[1 + ((i - 1) \div (e.n - 1))][2 + ((i - 1) % (e.n - 1))]]
  IN C(same <= 6, "proposals-repeat")
     \o C(\A i \in 1..Len(flat) : flat[i] >= e.lo /\ flat[i] < e.hi, "proposal-not-from-current-flow")
     \o C(\A k \in 0..7 : CountOk(Count(flat, e.lo + k * ((e.hi - e.lo) \div 8), e.lo + (k + 1) * ((e.hi - e.lo) \div 8)), Len(flat) \div 8),
          "proposals-not-distributed-as-flow")
     \o C(UnifOk(us), "acceptance-variate-not-uniform")
     \o C(IndepOk(us, flat, 2048, e.lo + (e.hi - e.lo) \div 2), "acceptance-variate-depends-on-proposal")
     \o (IF e.n > 1 THEN C(IndepOk(pa, pb, 2048, 2048), "acceptance-variates-dependent")
                         \o C(IndepOk(fa, fb, e.lo + (e.hi - e.lo) \div 2, e.lo + (e.hi - e.lo) \div 2), "proposals-dependent")
         ELSE <<>>)
Step(w, e) ==
  [st |-> w, bad |-> CASE e.op = "call" -> Call(e) [] e.op = "one" -> One(e) [] e.op = "rev" -> Rev(e)
                       [] e.op = "path" -> Path(e) [] e.op = "draws" -> Draws(e)
                       \* (one in 64 proposals is as good as the start: it is left out when accepted)
                       [] e.op = "rare" -> C(CountOk(e.count, ((e.n \div 1000) * RarePpm[e.k]) \div 1000), "rare-acceptances")
                       [] e.op = "same" -> C(e.a = e.b, e.what)]
Init == tid \in 1..Len(Traces) /\ l = 1 /\ st = 0 /\ bad = <<>>
Next == /\ l <= Len(Ev)
        /\ LET r == Step(st, Ev[l]) IN st' = r.st /\ bad' = Add(bad, l, r.bad)
        /\ l' = l + 1 /\ UNCHANGED tid
        /\ (l = Len(Ev) => Verdict(tid, bad'))
=============================================================================
