----------------------------- MODULE BundleTrace ----------------------------
(* Runs of real bundles.  One event per strategy executed: the positions passed in and out (per chain), *)
(* and what changed in the resources.  Positions are [tag, ctr, kind, version, nonce]: a local step     *)
(* counts ctr up and sets kind 1; a draw of the flow has kind 2 and the version of the flow it came from.*)
EXTENDS TraceLib, Bundle
VARIABLES tid, l, st, bad
Cfg == Traces[tid].cfg
Ev == Traces[tid].ev
NC == Cfg.nc
Eff == Effects(Cfg)         \* for traces of runs

(* e.d: changes, a sequence of [n: resource, c: column, v: per chain the new entry]                     *)
Cols(e, n) == {e.d[i].c : i \in {j \in 1..Len(e.d) : e.d[j].n = n}}
At(e, n, col) == e.d[CHOOSE j \in 1..Len(e.d) : e.d[j].n = n /\ e.d[j].c = col].v
Names(e) == {e.d[j].n : j \in 1..Len(e.d)}
Main == {"posT", "lpT", "laT", "gaT", "posP", "lpP", "laP", "gaP"}
Of(b) == {"pos" \o b, "lp" \o b, "la" \o b, "ga" \o b}

LocalEntry(pin, k, thin) == [pin EXCEPT ![2] = @ + 1 + k * thin, ![3] = 1]
RecordsOk(e, b, from, n, accName) ==
  LET cols == (from + 1)..(from + n) IN
  C(Cols(e, "pos" \o b) = cols, "fill-position-columns")
  \o C(Cols(e, "lp" \o b) = cols, "fill-logprob-columns")
  \o C(Cols(e, accName \o b) = cols, "fill-acceptance-columns")
LpOk(e, b, from, n) ==
  IF Cols(e, "lp" \o b) = (from + 1)..(from + n) /\ Cols(e, "pos" \o b) = (from + 1)..(from + n)
  THEN C(\A k \in 1..n : \A c \in 1..NC : Near(At(e, "lp" \o b, from + k)[c], At(e, "tlp" \o b, from + k)[c], 8), "fill-logprob-value")
  ELSE <<>>
Local(e, b) ==
  LET n == RecL(Cfg) ok == Cols(e, "pos" \o b) = (st.fill[b] + 1)..(st.fill[b] + n) IN
  RecordsOk(e, b, st.fill[b], n, "la") \o LpOk(e, b, st.fill[b], n)
  \o C(Names(e) \ {"tlpT", "tlpP"} \subseteq {"pos" \o b, "lp" \o b, "la" \o b}, "fill-local-writes-elsewhere")
  \o (IF ok THEN C(\A k \in 1..n : \A c \in 1..NC : At(e, "pos" \o b, st.fill[b] + k)[c] = LocalEntry(e.pin[c], k - 1, Cfg.lt), "fill-not-the-local-samples")
      ELSE <<>>)
Global(e, b) ==
  LET n == RecG(Cfg) from == st.fill[b] ok == Cols(e, "pos" \o b) = (from + 1)..(from + n)
      ent(k, c) == At(e, "pos" \o b, from + k)[c]
      stay(k, c) == IF k = 1 \/ Cfg.gt > 1 THEN {e.pin[c]} \union {ent(j, c) : j \in 1..(k - 1)} ELSE {ent(k - 1, c)}
  IN RecordsOk(e, b, from, n, "ga") \o LpOk(e, b, from, n)
     \o C(Names(e) \ {"tlpT", "tlpP"} \subseteq {"pos" \o b, "lp" \o b, "ga" \o b}, "fill-global-writes-elsewhere")
     \o (IF ok THEN
           C(\A k \in 1..n : \A c \in 1..NC : ent(k, c) \in stay(k, c) \/ ent(k, c)[3] = 2, "fill-not-the-global-samples")
        \o C(\A k \in 1..n : \A c \in 1..NC : ent(k, c) \in stay(k, c) \/ ent(k, c)[4] = st.ver, "phase-global-step-from-old-flow")
        \o C(Cols(e, "ga" \o b) # Cols(e, "pos" \o b) \/ Cfg.gt > 1 \/
             \A k \in 1..n : \A c \in 1..NC : (At(e, "ga" \o b, from + k)[c] = 1) = (ent(k, c) \notin stay(k, c)), "fill-global-acceptances")
         ELSE <<>>)
Train(e) ==
  C(e.train = "yes", "phase-training-missing")
  \o C(e.ver2 = st.ver + 1, "phase-flow-trained-times")
  \o C(Names(e) \subseteq {"loss"}, "fill-training-writes-elsewhere")
  \o C(Cols(e, "loss") = (st.loss + 1)..(st.loss + Cfg.ep), "fill-loss-columns")
  \o (IF Cols(e, "loss") = (st.loss + 1)..(st.loss + Cfg.ep)
      THEN C(\A k \in 1..Cfg.ep : At(e, "loss", st.loss + k) = 100 * (st.ver + 1) + k, "fill-loss-values") ELSE <<>>)
  \o C(e.optin = st.opt /\ e.opt2 = st.opt + 1, "phase-optimizer-state")
  \o C(e.tver = st.ver, "phase-training-continues-from-latest-flow")
  \o C(\A i \in 1..Len(e.rows) : e.rows[i] \in st.samples, "phase-training-on-other-samples")
  \o C(e.conf = "same", "opt-training-settings")
  \o (IF Cfg.pt > 1 THEN
        LET w == {k \in 1..Len(st.cols) : k > Len(st.cols) - Cfg.hist}
            recent == UNION {{st.cols[k][c] : c \in 1..NC} : k \in w} IN
        C(\A i \in 1..Len(e.rows) : e.rows[i] \in recent, "opt-training-on-samples-before-the-window")
     \o C(Cfg.nmax < 20 * Cardinality(recent) \/ \A x \in recent : \E i \in 1..Len(e.rows) : e.rows[i] = x, "opt-window-not-used")
      ELSE <<>>)
\* the samples now in the training buffer
Samples(e, b) == UNION {{At(e, "pos" \o b, k)[c] : c \in 1..NC} : k \in Cols(e, "pos" \o b)}
RECURSIVE InOrder(_, _)
InOrder(S, e) == IF S = {} THEN <<>> ELSE LET k == MinSet(S) IN <<At(e, "posT", k)>> \o InOrder(S \ {k}, e)
NewCols(e) == InOrder(Cols(e, "posT"), e)
Kind(e) == IF e.train = "yes" \/ e.ver2 # st.ver \/ "loss" \in Names(e) THEN "train"
           ELSE IF \E b \in {"T", "P"} : "ga" \o b \in Names(e) THEN "global"
           ELSE IF Names(e) \intersect Main # {} THEN "local"
           ELSE IF e.hotin # e.hotout THEN "pt" ELSE "none"
Frozen(e) ==        \* once production has begun (or every training effect is over and none is due)
  C(Names(e) \intersect Of("T") = {}, "phase-training-buffers-change-in-production")
  \o C(e.train = "no" /\ e.ver2 = st.ver, "phase-flow-changes-in-production")
  \o C(e.opt2 = st.opt, "phase-optimizer-changes-in-production")
  \o C("loss" \notin Names(e), "phase-loss-changes-in-production")
  \o C(e.temps = "same", "phase-ladder-changes-in-production")
\* the hot replicas start where the chains do, and move along with the cold one by the tempered steps
InitHot(e) == C(\A c \in 1..NC : Len(e.hotout[c]) = Cfg.pt - 1 /\ \A k \in 1..Len(e.hotout[c]) : e.hotout[c][k] = e.pin[c], "opt-hot-replicas-start-elsewhere")
              \o C(e.pout = e.pin, "opt-start-changed")
Tick(x, n) == [x EXCEPT ![2] = @ + n, ![3] = 1]
SameBag(s, t) == Len(s) = Len(t) /\ \A i \in 1..Len(s) : Cardinality({j \in 1..Len(s) : s[j] = s[i]}) = Cardinality({j \in 1..Len(t) : t[j] = s[i]})
PtMoves(e) == C(\A c \in 1..NC : SameBag([k \in 1..(1 + Len(e.hotin[c])) |-> Tick(IF k = 1 THEN e.pin[c] ELSE e.hotin[c][k - 1], Tempered(Cfg))],
                                         <<e.pout[c]>> \o e.hotout[c]), "opt-tempered-steps")
Temper(due) == due.k \in {"init", "pt"}
\* what is due, tempering aside
RECURSIVE Skip(_)
Skip(i) == IF i <= Len(Eff) /\ Temper(Eff[i]) THEN Skip(i + 1) ELSE i
TemperEv(e) ==
  LET due == IF st.i <= Len(Eff) THEN Eff[st.i] ELSE E("end", "-") IN
  [st |-> [st EXCEPT !.i = IF Temper(due) THEN @ + 1 ELSE @],
   bad |-> IF ~Temper(due) THEN C(FALSE, "opt-tempering-out-of-order")
           ELSE (IF due.k = "init" THEN InitHot(e) ELSE PtMoves(e)) \o C(e.ver2 = st.ver /\ e.opt2 = st.opt, "phase-flow-changed-outside-training")]
StrategyEv(e) ==
  LET k == Kind(e)
      at == IF k = "none" THEN st.i ELSE Skip(st.i)
      due == IF at <= Len(Eff) THEN Eff[at] ELSE E("end", "-")
      right == k = due.k
      b == IF right THEN due.b ELSE "T"
  IN IF k = "pt"
     THEN LET r == TemperEv(e) IN [st |-> r.st, bad |-> (IF st.prod THEN Frozen(e) ELSE <<>>) \o r.bad]
     ELSE IF k = "none"
     THEN [st |-> [st EXCEPT !.prod = @ \/ e.switched = "yes"], bad |-> (IF st.prod THEN Frozen(e) ELSE <<>>) \o C(e.opt2 = st.opt, "phase-optimizer-state")]
     ELSE
     [st |-> [st EXCEPT !.i = at + 1,
                        !.fill = IF k = "train" \/ ~right THEN @ ELSE [@ EXCEPT ![b] = @ + (IF k = "local" THEN RecL(Cfg) ELSE RecG(Cfg))],
                        !.ver = e.ver2, !.opt = e.opt2, !.loss = IF k = "train" THEN @ + Cfg.ep ELSE @,
                        !.prod = @ \/ (right /\ b = "P"),
                        !.samples = IF k # "train" THEN @ \union Samples(e, "T") ELSE @,
                        !.cols = IF k # "train" THEN @ \o NewCols(e) ELSE @],
      bad |-> C(at = st.i, "opt-tempering-missing")
        \o C(k # "local" \/ Cfg.batch <= 1 \/ e.group <= Cfg.batch, "opt-chain-batch-size")
        \o C(k # "local" \/ Cfg.batch > 1 \/ e.group \in {0, NC}, "opt-chain-batch-size")
        \o C(e.draws <= Cfg.nfb, "opt-proposal-batch-size")
        \o (IF st.prod \/ (right /\ b = "P") THEN Frozen(e) ELSE <<>>)
        \o C(right, "fill-order-of-samplers")
        \o (IF ~right THEN <<>>
            ELSE IF k = "train" THEN Train(e)
            ELSE C(Names(e) \intersect Of(IF b = "T" THEN "P" ELSE "T") = {}, "phase-wrong-buffer")
                 \o C(e.ver2 = st.ver /\ e.opt2 = st.opt, "phase-flow-changed-outside-training")
                 \o (IF k = "local" THEN Local(e, b) ELSE Global(e, b)))]
End(e) ==
  [st |-> st, bad |-> C(Skip(st.i) = Len(Eff) + 1, "fill-run-incomplete") \o C(st.i = Skip(st.i), "opt-tempering-missing")
     \o C(e.sizeT = Size(Cfg, "T") /\ e.sizeP = Size(Cfg, "P"), "fill-buffer-sizes")
     \o C(e.unfilled = 0, "fill-entries-left-unfilled")
     \o C(e.lossize = Cfg.tr * Cfg.ep, "fill-loss-size")]
Second(e) == [st |-> st, bad |-> C(e.overwritten = "no", "phase-second-run-overwrites-production")]
(* Real parts built by a bundle, against the options it was given.                                       *)
Want(e) ==
  CASE e.what = "step-size" -> C(Abs(e.got - e.want) <= e.want \div 8, "opt-step-size")
    [] e.what = "learning-rate" -> C(Abs(e.got - e.want) <= e.want \div 40, "opt-learning-rate")
    [] e.what = "batches" -> C(e.got = e.tr * e.ep * Max(1, e.nmax \div e.batch), "opt-batch-size")
    [] e.what = "flow-shape" -> C(e.got = e.want, "opt-flow-shape")
    [] e.what = "weights" -> C(e.got = e.again, "opt-weights-not-reproducible") \o C(e.got # e.other, "opt-weights-ignore-key")
    [] e.what = "ladder" -> C(Len(e.got) = e.n /\ e.got[1] = SC /\ e.got[e.n] = e.max, "opt-ladder")
                            \o C(\A i \in 1..(Len(e.got) - 1) : e.got[i] < e.got[i + 1], "opt-ladder")
Step(w, e) == IF e.op = "strategy" THEN StrategyEv(e) ELSE IF e.op = "end" THEN End(e)
              ELSE IF e.op = "real" THEN [st |-> w, bad |-> Want(e)] ELSE Second(e)
Init == tid \in 1..Len(Traces) /\ l = 1 /\ bad = <<>>
        /\ st = [i |-> 1, fill |-> [b \in {"T", "P"} |-> 0], ver |-> 0, opt |-> 0, loss |-> 0, prod |-> FALSE, samples |-> {}, cols |-> <<>>]
Next == /\ l <= Len(Ev)
        /\ LET r == Step(st, Ev[l]) IN st' = r.st /\ bad' = Add(bad, l, r.bad)
        /\ l' = l + 1 /\ UNCHANGED tid
        /\ (l = Len(Ev) => Verdict(tid, bad'))
=============================================================================
