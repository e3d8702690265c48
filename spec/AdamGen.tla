------------------------------- MODULE AdamGen ------------------------------
(* Random optimizations: targets sum_i a[i] x[i] - c[i] x[i]^2 / 2 (units of 1/16), starts, bounds.     *)
EXTENDS Integers, Sequences, TLC, Json
VARIABLES c, done
R(S) == RandomElement(S)
Init == done = FALSE /\ c = 0
Conf(z) == LET nd == R(1..3)  nc == R(1..4) IN
  [nd |-> nd, nc |-> nc, a |-> [i \in 1..nd |-> R(-8..8)], c |-> [i \in 1..nd |-> R({0, 0, 4, 8})],
   x |-> [k \in 1..nc |-> [i \in 1..nd |-> R(-12..12)]], shared |-> R({0, 1}),
   \* bound kinds per dimension: none, wide, tight above, tight below, pinned
   b |-> [i \in 1..nd |-> R({"none", "wide", "above", "below", "pinned", "left"})],
   n |-> R({0, 1, 2, 5}), lr |-> R({1, 5}), noise |-> R({0, 0, 1})]
Next == /\ ~done /\ done' = TRUE /\ c' = Conf(0) /\ PrintT(ToJson(c'))
=============================================================================
