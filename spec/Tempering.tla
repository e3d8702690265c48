------------------------------ MODULE Tempering -----------------------------
(* Replica exchange as a sweep over neighbouring pairs.  A chain is a sequence of states (cold first),*)
(* with untempered log-likelihoods ll; beta numerators b (b[1] largest): pair i is exchanged when     *)
(* u < (b[i] - b[i+1]) * (ll[i+1] - ll[i]).                                                           *)
EXTENDS Integers, Sequences, FiniteSets
Swap(s, i) == [k \in DOMAIN s |-> IF k = i THEN s[i + 1] ELSE IF k = i + 1 THEN s[i] ELSE s[k]]
\* the states after a sweep with the decisions d
RECURSIVE Sweep(_, _, _)
Sweep(s, d, i) == IF i > Len(d) THEN s ELSE Sweep(IF d[i] THEN Swap(s, i) ELSE s, d, i + 1)
\* The decisions that lead from before to after, all states being different: a state that goes down
\* arrives at the slot below, where the sweep does not come back.  Empty if no decisions do.
Decisions(before, after) ==
  LET d == [i \in 1..(Len(before) - 1) |-> after[i] = before[i + 1]]
  IN IF Sweep(before, d, 1) = after THEN {d} ELSE {}
\* the states in pair i when it is considered
Before(s, d, i) == Sweep(s, SubSeq(d, 1, i - 1), 1)
=============================================================================
