------------------------------ MODULE SystemMC ------------------------------
(* Two copies of a design that computes each new value from what it reads, started out differing in D.  *)
(* Variants: leak (a local step looks at the flow), spill (training refreshes the global kernel itself), *)
(* hidden (a stepper keeps using the data of its first call), latephase (recording keeps going to the    *)
(* training buffers), ignore (training starts over from fresh moments).                                  *)
EXTENDS System
CONSTANTS Variant, MaxLen, MaxD
VARIABLES w1, w2, ph, T, n, act, ok
vars == <<w1, w2, ph, T, n, act, ok>>
M == 9973
Order == <<"POS", "KEY", "DATA", "kerL", "kerG", "model", "opt", "loss", "tpos", "temps", "curL", "curG", "state", "note", "other",
           "logpdf", "tpdf", "rate", "posA", "lpA", "laA", "gaA", "posB", "lpB", "laB", "gaB">>
Idx(x) == CHOOSE i \in 1..Len(Order) : Order[i] = x
RECURSIVE Mix(_, _, _)
Mix(w, S, i) == IF i = 0 THEN 0 ELSE ((IF Order[i] \in S THEN w[Order[i]] * (2 * i + 1) ELSE 0) + 31 * Mix(w, S, i - 1)) % M
Reads(kind, x) ==
  LET p == IF Variant = "latephase" THEN "A" ELSE ph
      base == IF kind = "train" /\ Variant = "ignore" THEN Dep(kind, p, x) \ {"opt"} ELSE Dep(kind, p, x)
  IN IF Variant = "leak" /\ kind = "local" /\ x = "POS" THEN base \union {"model"} ELSE base
Wr(kind) == Writes(kind, IF Variant = "latephase" THEN "A" ELSE ph) \union (IF Variant = "spill" /\ kind = "train" THEN {"kerG"} ELSE {})
\* hid: the data remembered from the first call (hidden state of the strategy object, part of the world as "seen")
Value(w, kind, x) ==
  LET v == IF Variant = "hidden" /\ kind = "local" /\ w["seen"] # 0 THEN [w EXCEPT !["DATA"] = w["seen"]] ELSE w
  IN (7 + Idx(x) + Mix(v, Reads(kind, x) \union (IF x = "kerG" /\ kind = "train" THEN {"model"} ELSE {}), Len(Order))) % M
Run(w, kind) == [x \in DOMAIN w |-> IF x = "seen" THEN (IF kind = "local" /\ w[x] = 0 THEN w["DATA"] ELSE w[x])
                                    ELSE IF x \in Wr(kind) THEN Value(w, kind, x) ELSE w[x]]
Init == /\ \E D \in SUBSET Things : /\ Cardinality(D) <= MaxD /\ "state" \notin D /\ T = D
                                    /\ w1 = [x \in Things \union {"seen"} |-> IF x = "seen" THEN 0 ELSE 100 + Idx(x)]
                                    /\ w2 = [x \in Things \union {"seen"} |-> IF x = "seen" THEN (IF Variant = "hidden" THEN 77 ELSE 0)
                                                                             ELSE 100 + Idx(x) + (IF x \in D THEN 1000 ELSE 0)]
        /\ ph = "A" /\ n = 0 /\ act = "-" /\ ok = TRUE
Next == /\ n < MaxLen /\ n' = n + 1
        /\ \E kind \in Kinds : /\ act' = kind /\ w1' = Run(w1, kind) /\ w2' = Run(w2, kind)
             /\ T' = Spread(kind, ph, T) /\ ph' = Phase(kind, ph)
             /\ ok' = /\ \A x \in Things : w1'[x] # w1[x] => x \in Writes(kind, ph)
                      /\ \A x \in Things : (\E y \in Ess(kind, ph, x) : w1[y] # w2[y] /\ \A z \in Dep(kind, ph, x) \ {y} : w1[z] = w2[z]) => w1'[x] # w2'[x]
Agree == \A x \in Things \ T : w1[x] = w2[x]
Inv == ok /\ Agree
=============================================================================
