----------------------------- MODULE TrainingGen ----------------------------
(* Random training runs (with the loss at every version of the parameters) and random fillings of a   *)
(* buffer.                                                                                           *)
EXTENDS Training, TLC, Json, IOUtils
VARIABLES c, done
R(S) == RandomElement(S)
NaNv == 2000000001
PInfv == 2000000002
Init == done = FALSE /\ c = 0
Table(kind) == [i \in 1..80 |->
   CASE kind = "mixed" -> R({-3, 1, 2, 2, 5, NaNv})
     [] kind = "nan" -> NaNv
     [] kind = "falling" -> 100 - i
     [] kind = "rising" -> i
     [] kind = "flat" -> 4
     [] kind = "valley" -> (i - 9) * (i - 9)
     [] kind = "big" -> IF i % 3 = 0 THEN 90000 - i ELSE PInfv]
Train(z) == [op |-> "train", n |-> R(2..7), b |-> R({1, 2, 3, 10}), ep |-> R(0..5), v0 |-> R({0, 3}),
          table |-> Table(R({"mixed", "nan", "falling", "rising", "flat", "valley"})), unit |-> 1]
BigTrain(z) == [Train(z) EXCEPT !.table = Table("big"), !.unit = 16384]
Fill(z) == LET nc == R(1..3)  cols == R(2..8) IN
        [op |-> "fill", nc |-> nc, cols |-> cols, hist |-> R({1, 2, 3, 100}), n |-> R({1, 5, 30}),
         \* 0 never written, 1 valid, 2 one component not a number, 3 one component infinite
         cells |-> [i \in 1..nc |-> LET f == R(0..cols) IN
                     [k \in 1..cols |-> IF k > f THEN 0 ELSE R({1, 1, 1, 2, 3})]]]
Next == /\ ~done /\ done' = TRUE
        /\ c' = IF IOEnv.WHAT = "train" THEN (IF R(1..8) = 1 THEN BigTrain(0) ELSE Train(0)) ELSE Fill(0)
        /\ PrintT(ToJson(c'))
=============================================================================
