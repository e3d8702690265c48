------------------------------ MODULE BundleGen -----------------------------
(* Random configurations.  *)
EXTENDS Bundle, TLC, Json
VARIABLES c, done
Init == done = FALSE /\ c = [nl |-> 1, ng |-> 1, lt |-> 1, gt |-> 1, tr |-> 1, pr |-> 1, ep |-> 1]
R(S) == RandomElement(S)
Next == /\ ~done /\ done' = TRUE
        /\ c' = [nl |-> R(1..6), ng |-> R(1..6), lt |-> R(1..3), gt |-> R({1, 2, 4}), tr |-> R(0..3), pr |-> R(0..3), ep |-> R(1..3),
                 pt |-> R({0, 0, 2, 3}), nts |-> R({-1, 1, 3}), nc |-> R({2, 3, 5}), batch |-> R({0, 2, 4}), nmax |-> R({5, 40, 300}),
                 hist |-> R({1, 2, 5, 100}), seed |-> R(0..3), nfb |-> R({2, 100})]
        \* training comes before the first global steps: it needs samples of the local ones
        /\ (PerLoop(c') > 0 /\ (c'.tr = 0 \/ c'.nl >= c'.lt) => PrintT(ToJson(c')))
=============================================================================
