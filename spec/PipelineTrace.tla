--------------------------- MODULE PipelineTrace ---------------------------
EXTENDS TraceLib, Pipeline
VARIABLES tid, l, st, bad
Cfg == Traces[tid].cfg
Ev == Traces[tid].ev
Avail == Range(Cfg.avail)
InitSt(c) == [s |-> [StartState(c.key, c.res, c.pos) EXCEPT !.status = "idle"], dummy |-> 0]

StepRun(w, e) ==    \* a new call of sample()
    LET s == w.s IN
    [st |-> [w EXCEPT !.s = [StartState(Cfg.key, s.res, e.pos) EXCEPT !.n = s.n]],
     bad |-> C(s.status # "run", "run-while-running")]
StepCall(w, e) ==
    LET s == w.s
        kind == Kind(s, Cfg.prog, Avail)
        eff == Cfg.eff[e.name]
        o == CallOut(s, eff)
        \* resynchronise on what was observed
        s2 == [s EXCEPT !.key = e.okey, !.res = e.ores, !.pos = e.opos, !.pc = s.pc + 1, !.n = s.n + 1]
    IN [st |-> [w EXCEPT !.s = s2],
        bad |-> C(kind = "call", "call-not-expected")
             \o (IF kind = "call" THEN C(e.name = Cfg.prog[s.pc], "wrong-strategy") ELSE <<>>)
             \o C(e.key = s.key, "key-threaded") \o C(e.res = s.res, "resources-threaded")
             \o C(e.pos = s.pos, "position-threaded") \o C(e.data = Cfg.data, "data-unchanged")
             \o C(e.okey = o.key /\ e.ores = o.res /\ e.opos = o.pos, "stub-effect")]
StepRaise(w, e) ==
    LET s == w.s
        kind == Kind(s, Cfg.prog, Avail) IN
    [st |-> [w EXCEPT !.s.status = "error"],
     bad |-> C(kind = "raise", "error-not-expected")
          \o (IF kind = "raise" THEN C(e.names = "yes", "error-names-strategy") ELSE <<>>)]
StepEnd(w, e) ==
    LET s == w.s IN
    [st |-> [w EXCEPT !.s.status = "done"],
     bad |-> C(Kind(s, Cfg.prog, Avail) = "end", "ended-early") \o C(e.res = s.res, "final-resources")]
StepCtor(w, e) ==
    [st |-> w, bad |-> C(e.outcome = Source(e.hasres, e.hasstrat, e.hasbundle), "strategy-source")]
StepOverride(w, e) ==
    [st |-> w, bad |-> C(e.mine = e.want, "override-applied") \o C(e.other = e.before, "override-leaks")
                    \o C(e.cls = e.before, "override-changes-class") \o C(e.unknown = "no", "unknown-setting-added")]
Step(w, e) == CASE e.op = "run" -> StepRun(w, e) [] e.op = "call" -> StepCall(w, e)
                [] e.op = "raise" -> StepRaise(w, e) [] e.op = "end" -> StepEnd(w, e)
                [] e.op = "ctor" -> StepCtor(w, e) [] e.op = "override" -> StepOverride(w, e)

Init == tid \in 1..Len(Traces) /\ l = 1 /\ st = InitSt(Traces[tid].cfg) /\ bad = <<>>
Next == /\ l <= Len(Ev)
        /\ LET r == Step(st, Ev[l]) IN
             /\ st' = r.st
             /\ bad' = Add(bad, l, r.bad)
        /\ l' = l + 1 /\ UNCHANGED tid
        /\ (l = Len(Ev) => Verdict(tid, bad'))
=============================================================================
