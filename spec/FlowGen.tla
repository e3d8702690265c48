------------------------------- MODULE FlowGen ------------------------------
(* Random flows and layers: kinds, sizes, spline ranges, weight scales (units of 1/16), points as classes. *)
EXTENDS Integers, Sequences, TLC, Json
VARIABLES c, done
R(S) == RandomElement(S)
Init == done = FALSE /\ c = 0
Conf(z) == LET nd == R(1..4) IN
  [kind |-> R({"realnvp", "realnvp", "rqs", "rqs", "affine", "maffine", "mscalar", "spline", "mspline"}),
   nd |-> nd, nl |-> R(1..4), hid |-> R({1, 3, 8}), bins |-> R({1, 2, 4, 8}),
   range |-> R({<<-10, 10>>, <<-2, 3>>, <<0, 1>>, <<-1, 1>>}), w |-> R({0, 4, 12, 24, 48}), dt |-> R({8, 16, 24}),
   mask |-> [i \in 1..nd |-> R({0, 1})],
   \* per point and dimension: where relative to the spline range (in eighths of its half-width), or at a knot
   pts |-> [p \in 1..6 |-> [i \in 1..nd |-> R({"in", "in", "in", "lo", "hi", "below", "above", "far", "knot", "zero"})]]]
Next == /\ ~done /\ done' = TRUE /\ c' = Conf(0) /\ PrintT(ToJson(c'))
=============================================================================
