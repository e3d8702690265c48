------------------------------ MODULE Training ------------------------------
(* Training of a flow: which samples become training data, which examples form which batch, which     *)
(* epoch's parameters are kept.                                                                      *)
EXTENDS Integers, Sequences, FiniteSets
LOCAL Lo(a, b) == IF a < b THEN a ELSE b

(* --- selection.  valid: per chain a sequence of booleans, oldest first --- *)
\* columns of the H most recent valid samples of a chain
Recent(valid, H) ==
  {k \in 1..Len(valid) : valid[k] /\ Cardinality({j \in k..Len(valid) : valid[j]}) <= H}

(* --- epochs of batches of n examples --- *)
PerEpoch(n, b) == IF n \div b > 0 THEN n \div b ELSE 1
BatchLen(n, b) == IF n \div b > 0 THEN b ELSE n

(* --- the best epoch.  losses: sequence of numbers; Bad(x): not a number or plus infinity --- *)
Best(losses, Bad(_)) ==
  LET good == {e \in 1..Len(losses) : ~Bad(losses[e])}
      least == {e \in good : \A f \in good : losses[e] <= losses[f]}
  IN IF good = {} THEN 0 ELSE CHOOSE e \in least : \A f \in least : e <= f
=============================================================================
