----------------------------- MODULE PipelineGen -----------------------------
(* Generates programs: strategies with effects, a list of names (some unknown), one or   *)
(* two runs on the same sampler.                                                         *)
EXTENDS Pipeline, TLC, Json
VARIABLES eff, prog, runs, done
Pool == {"a", "b", "c", "d"}
\* names of no strategy, among them near misses of names that are
Unknown == {"unknown_strategy", "", "A", " b", "c ", "dd"}
Init == /\ eff \in [Pool -> {Effect(k, r, p) : k \in BOOLEAN, r \in BOOLEAN, p \in BOOLEAN}]
        /\ prog = <<>> /\ runs \in 1..2 /\ done = FALSE
Next == \/ ~done /\ Len(prog) < 9 /\ \E nm \in Pool : prog' = Append(prog, nm) /\ UNCHANGED <<eff, runs, done>>
        \/ ~done /\ Len(prog) \in {2, 6} /\ \E nm \in Unknown : prog' = Append(prog, nm) /\ UNCHANGED <<eff, runs, done>>
        \/ /\ ~done /\ Len(prog) >= 3 /\ done' = TRUE /\ UNCHANGED <<eff, prog, runs>>
           /\ PrintT(ToJson([eff |-> eff, prog |-> prog, runs |-> runs]))
=============================================================================
