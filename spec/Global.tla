------------------------------- MODULE Global -------------------------------
(* A sequence of global steps as one transition per step, with the proposals and their densities     *)
(* drawn up front in batches.  Exact weights: P target, G flow.  Ghost: the density the comparison    *)
(* uses must be that of the state the chain is in, and the proposal's own.                            *)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS Variant, K, N, B
Xs == 1..K
VARIABLES x, g, props, k, cmp
Q(s) == 10 + s     \* flow density of s (a tag)
vars == <<x, g, props, k, cmp>>
Batches == (N + B - 1) \div B
\* the batched draw: Batches batches of ceil(N/Batches), cut to N
PerBatch == (N + Batches - 1) \div Batches
Init == /\ x \in Xs /\ g = Q(x) /\ k = 0 /\ cmp = <<>>
        /\ \E d \in [1..(Batches * PerBatch) -> Xs] :
             props = [i \in 1..N |-> [s |-> d[i], q |-> IF Variant = "batchmix" /\ i > B THEN Q(d[i - B]) ELSE Q(d[i])]]
Accept(a) == LET p == props[k + 1] IN
  /\ x' = IF a THEN p.s ELSE x
  /\ g' = IF Variant = "stale" THEN g ELSE IF a THEN p.q ELSE g
Next == /\ k < N /\ \E a \in BOOLEAN : Accept(a)
        /\ cmp' = Append(cmp, [cur |-> x, curq |-> g, prop |-> props[k + 1]])
        /\ k' = k + 1 /\ UNCHANGED props
Inv == \A i \in 1..Len(cmp) : cmp[i].curq = Q(cmp[i].cur) /\ cmp[i].prop.q = Q(cmp[i].prop.s)
=============================================================================
