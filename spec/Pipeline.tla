------------------------------ MODULE Pipeline ------------------------------
(* Sampler.sample as a state machine: a program (sequence of strategy names) is executed *)
(* one name at a time over the threaded state (key, resources, position).  Values are    *)
(* tokens (integers); a strategy of a given effect replaces some of them by fresh ones.  *)
EXTENDS Integers, Sequences, FiniteSets

\* effect of a strategy: which components it replaces
Effect(k, r, p) == [key |-> k, res |-> r, pos |-> p]
Fresh(n, replace, old) == IF replace THEN 1000 + n ELSE old

StartState(key, res, pos) == [key |-> key, res |-> res, pos |-> pos, pc |-> 1, status |-> "run", n |-> 0]

\* executing strategy nm with effect e from state s; n counts executions over the sampler's life
CallIn(s) == [key |-> s.key, res |-> s.res, pos |-> s.pos]
CallOut(s, e) == [key |-> Fresh(s.n + 1, e.key, s.key), res |-> Fresh(s.n + 1, e.res, s.res),
                  pos |-> Fresh(s.n + 1, e.pos, s.pos)]
AfterCall(s, e) == LET o == CallOut(s, e) IN
    [s EXCEPT !.key = o.key, !.res = o.res, !.pos = o.pos, !.pc = s.pc + 1, !.n = s.n + 1]

\* what happens next in program prog with available strategies avail
Kind(s, prog, avail) ==
    IF s.status # "run" THEN "none"
    ELSE IF s.pc > Len(prog) THEN "end"
    ELSE IF prog[s.pc] \in avail THEN "call" ELSE "raise"

\* which source a sampler takes its strategies from
Source(hasRes, hasStrat, hasBundle) ==
    IF hasRes /\ hasStrat THEN "own" ELSE IF hasBundle THEN "bundle" ELSE "refused"
=============================================================================
