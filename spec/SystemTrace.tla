---------------------------- MODULE SystemTrace -----------------------------
(* Pairs of runs of one program of real strategies through the real sampler.  One event per strategy:    *)
(* what changed in the first run, in the second, and what differs between the two afterwards.  cfg.d: what *)
(* they started out differing in; cfg.mode: how the second was set up (it must not matter).               *)
EXTENDS TraceLib, System
VARIABLES tid, l, st, bad
Cfg == Traces[tid].cfg
Ev == Traces[tid].ev
S(s) == {s[i] : i \in 1..Len(s)}
\* differences that must have consequences: recorded samples may be too old to be trained on
Active(T) == IF "posA" \in S(Cfg.d) THEN T ELSE T \ {"posA"}
Step(w, e) ==
  LET W == Writes(e.op, w.ph)
      T2 == Spread(e.op, w.ph, w.T)
      diff == S(e.diff)
  IN [st |-> [ph |-> Phase(e.op, w.ph), T |-> T2, act |-> diff],
      bad |-> C(S(e.chA) \subseteq W /\ S(e.chB) \subseteq W, "touches-what-it-was-not-given")
           \o C(diff \subseteq T2, IF Cfg.mode = "plain" THEN "depends-on-what-it-was-not-given" ELSE "depends-on-" \o Cfg.mode)
           \o C(\A x \in Things : Ess(e.op, w.ph, x) \intersect Active(w.act) # {} => x \in diff, "ignores-what-it-was-given")]
Init == tid \in 1..Len(Traces) /\ l = 1 /\ bad = <<>> /\ st = [ph |-> "A", T |-> S(Cfg.d), act |-> S(Cfg.d)]
Next == /\ l <= Len(Ev)
        /\ LET r == Step(st, Ev[l]) IN st' = r.st /\ bad' = Add(bad, l, r.bad)
        /\ l' = l + 1 /\ UNCHANGED tid
        /\ (l = Len(Ev) => Verdict(tid, bad'))
=============================================================================
