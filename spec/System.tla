------------------------------- MODULE System -------------------------------
(* The whole system as strategies acting on named things: what each may touch and what the new value   *)
(* of each thing it writes may depend on.  Two runs of one program that start out differing in the      *)
(* things D can later differ only in the things Spread leads to; everything else must agree exactly.    *)
(*   POS, KEY, DATA: the positions and the key handed on, the caller's data.                            *)
(*   pos/lp/la/ga x A/B: the four recording buffers of either phase.   curL, curG: the write positions  *)
(*   of the two steppers.  tpos, temps: the hot replicas and the ladder.  kerL, kerG: the local and the *)
(*   global kernel (with its flow), model, opt: the flow being trained and its optimizer.               *)
(*   note, other: an unrelated entry of the state and an unrelated buffer.                              *)
(*   logpdf, tpdf: the target and the tempered target.   rate: the rule of the optimizer (its state: opt).*)
EXTENDS Integers, Sequences, FiniteSets
Things == {"POS", "KEY", "DATA", "kerL", "kerG", "model", "opt", "loss", "tpos", "temps", "curL", "curG", "state", "note", "other",
           "logpdf", "tpdf", "rate", "posA", "lpA", "laA", "gaA", "posB", "lpB", "laB", "gaB"}
Kinds == {"local", "global", "pt", "train", "refresh", "adam", "switch"}
Of(kind, ph) == IF kind = "local" THEN {"pos" \o ph, "lp" \o ph, "la" \o ph} ELSE {"pos" \o ph, "lp" \o ph, "ga" \o ph}
Writes(kind, ph) ==
  CASE kind = "local" -> Of(kind, ph) \union {"POS", "KEY", "curL"}
    [] kind = "global" -> Of(kind, ph) \union {"POS", "KEY", "curG"}
    [] kind = "pt" -> {"POS", "KEY", "tpos"} \union (IF ph = "A" THEN {"temps"} ELSE {})
    [] kind = "train" -> {"KEY", "model", "opt", "loss"}
    [] kind = "refresh" -> {"kerG"}
    [] kind = "adam" -> {"POS", "KEY"}
    [] kind = "switch" -> {"state"}
\* what the new value of w may depend on
Dep(kind, ph, w) ==
  IF w \notin Writes(kind, ph) THEN {w}
  ELSE IF w \in {"KEY", "curL", "curG", "state"} THEN {w}
  ELSE CASE kind = "local" -> {"POS", "KEY", "DATA", "kerL", "logpdf"} \union (IF w = "POS" THEN {} ELSE {w, "curL"})
         [] kind = "global" -> {"POS", "KEY", "DATA", "kerG", "logpdf"} \union (IF w = "POS" THEN {} ELSE {w, "curG"})
         [] kind = "pt" -> {"POS", "tpos", "temps", "KEY", "DATA", "kerL", "tpdf"}
         [] kind = "train" -> {"model", "opt", "posA", "KEY", "rate"} \union (IF w = "loss" THEN {"loss"} ELSE {})
         [] kind = "refresh" -> {"model", "kerG"}
         [] kind = "adam" -> {"POS", "KEY", "DATA"}
         [] OTHER -> {w}
Spread(kind, ph, T) == {w \in Things : Dep(kind, ph, w) \intersect T # {}}
(* A difference in any of these must show in w: an input that is configured is really used.             *)
Ess(kind, ph, w) ==
  IF w \notin Writes(kind, ph) THEN {w}
  ELSE CASE kind = "local" /\ w \in {"POS", "pos" \o ph} -> {"POS", "KEY", "DATA", "kerL", "logpdf"}
         [] kind = "local" /\ w = "lp" \o ph -> {"POS", "KEY", "DATA", "logpdf"}
         [] kind = "global" /\ w = "lp" \o ph -> {"KEY", "DATA", "kerG", "logpdf"}
         [] kind = "global" /\ w = "pos" \o ph -> {"KEY", "kerG"}
         [] kind = "pt" /\ w = "tpos" -> {"tpos", "temps", "KEY", "DATA", "kerL", "tpdf"}
         [] kind = "train" /\ w = "model" -> {"model", "opt", "posA", "KEY", "rate"}
         [] kind = "train" /\ w = "loss" -> {"model", "posA", "KEY"}
         [] kind = "train" /\ w = "opt" -> {"opt", "posA", "KEY"}
         [] kind = "refresh" /\ w = "kerG" -> {"model"}
         [] kind = "adam" /\ w = "POS" -> {"POS", "KEY", "DATA"}
         [] w = "KEY" -> {"KEY"}
         [] OTHER -> {}
Phase(kind, ph) == IF kind = "switch" THEN "B" ELSE ph
=============================================================================
