----------------------------- MODULE MatchingGen ----------------------------
(* Random velocity fields with known solutions, whitenings, and training sets (units of 1/16).            *)
EXTENDS Integers, Sequences, TLC, Json
VARIABLES c, done
R(S) == RandomElement(S)
Init == done = FALSE /\ c = 0
Conf(z) == LET nd == R(1..3) IN
  [kind |-> R({"linear", "linear", "rotation", "shear", "cubic"}), nd |-> nd,
   a |-> [i \in 1..nd |-> R(-16..16)], b |-> [i \in 1..nd |-> R(-24..24)], d |-> [i \in 1..nd |-> R(-24..24)], om |-> R(-24..24),
   mean |-> [i \in 1..nd |-> R(-48..48)], std |-> [i \in 1..nd |-> R({4, 8, 16, 24, 40})],
   n |-> R(1..6), dt |-> R({4, 10, 25, 30}),
   \* training: number of rows, batch size
   rows |-> R(3..9), batch |-> R(1..12), alpha |-> R({"ot", "square"})]
Next == /\ ~done /\ done' = TRUE /\ c' = Conf(0) /\ PrintT(ToJson(c'))
=============================================================================
