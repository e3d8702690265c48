------------------------------ MODULE KeysTrace -----------------------------
(* Recordings of every use of a random key in real runs.  A call was handed a key and handed on a key;   *)
(* in between, keys were split and drawn from. st: what earlier calls of the scenario used.              *)
EXTENDS TraceLib
VARIABLES tid, l, st, bad
Ev == Traces[tid].ev
\* e.draws: sequence of [k, op, n]; e.splits: sequence of [k, ch]
Drawn(ds) == {ds[i].k : i \in 1..Len(ds)}
Split(ss) == {ss[i].k : i \in 1..Len(ss)}
RECURSIVE Descend(_, _, _)
Descend(ss, new, all) ==
  LET next == UNION {Range(ss[i].ch) : i \in {j \in 1..Len(ss) : ss[j].k \in new}} \ all
  IN IF next = {} THEN all ELSE Descend(ss, next, all \cup next)
Call(w, e) ==
  LET d == e.draws
      idx == 1..Len(d)
      keys == Drawn(d)
      uses(k) == {i \in idx : d[i].k = k}
      \* one representative use of every key
      rep == {CHOOSE i \in uses(k) : \A j \in uses(k) : i <= j : k \in keys}
      allD == w.drawn \cup keys
      allS == w.split \cup Split(e.splits)
      values == SumFrom([i \in idx |-> IF i \in rep THEN d[i].n ELSE 0], Len(d))
  IN [st |-> [drawn |-> allD, split |-> allS],
      bad |-> C(\A k \in keys : \A i, j \in uses(k) : d[i].op = d[j].op /\ d[i].n = d[j].n, "key-for-two-purposes:" \o e.what)
           \* drawing the same normal variate again (as MALA does) is not another decision
           \o C(\A k \in keys : LET c == Cardinality(uses(k)) IN c <= 1 \/ (c = 2 /\ \A i \in uses(k) : d[i].op = "normal"), "key-drawn-more-than-once:" \o e.what)
           \o C(keys \cap w.drawn = {}, "key-drawn-in-an-earlier-call:" \o e.what)
           \o C(allD \cap allS = {}, "key-drawn-and-split:" \o e.what)
           \o C(values >= e.least, "too-few-random-values:" \o e.what)
           \o C(keys \subseteq Descend(e.splits, {e.key}, {e.key}), "not-from-the-given-key:" \o e.what)
           \o (IF e.out # "none" THEN C(e.out # e.key /\ e.out \notin allD /\ e.out \notin allS, "key-handed-on-not-fresh:" \o e.what) ELSE <<>>)]
Same(e) == C(e.got = e.want, e.what)
Step(w, e) == CASE e.op = "call" -> Call(w, e)
                [] e.op = "same" -> [st |-> w, bad |-> Same(e)]
Init == tid \in 1..Len(Traces) /\ l = 1 /\ st = [drawn |-> {}, split |-> {}] /\ bad = <<>>
Next == /\ l <= Len(Ev)
        /\ LET r == Step(st, Ev[l]) IN st' = r.st /\ bad' = Add(bad, l, r.bad)
        /\ l' = l + 1 /\ UNCHANGED tid
        /\ (l = Len(Ev) => Verdict(tid, bad'))
=============================================================================
