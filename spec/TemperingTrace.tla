--------------------------- MODULE TemperingTrace ---------------------------
EXTENDS Kernels, Steps, Tempering
VARIABLES tid, l, st, bad
Cfg == Traces[tid].cfg
Ev == Traces[tid].ev
R == Cfg.r
NCh == Cfg.nc
Ext(v) == IF IsNum(v) THEN Num(v) ELSE IF v = NaN THEN NaN_ ELSE IF v = PInf THEN PI_ ELSE NI_

(* A state is [id, ctr, tv, err]: identity, number of kernel steps taken, the value of its tempered  *)
(* target seen in its last step, and the number of steps whose arguments were inconsistent.          *)
\* the sweep decisions that explain the permutation of chain c
Explains(before, after) == Decisions(before, after)
\* (1/Tc - 1/Th) * dll
Tempered(dll, tc, th) == IF IsN(dll) THEN Num(DivF(dll[2], tc) - DivF(dll[2], th)) ELSE dll
RuleOk(e, c, ids, d) ==
  \A i \in 1..(R - 1) :
    LET s == Before(ids, d, i)
        dll == Plus(Ext(e.ll[s[i + 1]]), Neg(Ext(e.ll[s[i]])))
        r == Tempered(dll, e.t[i], e.t[i + 1])
        u == e.lu[c][i]
    IN \/ d[i] = Less(Num(u), r)
       \/ IsN(r) /\ Abs(r[2] - u) <= e.tol + Abs(DivF(dll[2], e.t[i])) \div 2048

Call(e) ==
  LET after == [c \in 1..NCh |-> [k \in 1..R |-> IF k = 1 THEN e.cold[c].id ELSE e.hot[c][k - 1].id]]
      ex == [c \in 1..NCh |-> Explains(st.ids[c], after[c])]
      shape == Len(e.cold) = NCh /\ Len(e.hot) = NCh /\ \A c \in 1..NCh : Len(e.hot[c]) = R - 1
      ok == shape /\ \A c \in 1..NCh : Cardinality(ex[c]) = 1
      dec == [c \in 1..NCh |-> CHOOSE d \in ex[c] : TRUE]
      \* the state that was in slot k of chain c before the exchange is now in slot Where
      slots == [c \in 1..NCh |-> [k \in 1..R |-> IF k = 1 THEN e.cold[c] ELSE e.hot[c][k - 1]]]
      whereIs(c, id) == CHOOSE k \in 1..R : slots[c][k].id = id
      was(c, k) == slots[c][whereIs(c, st.ids[c][k])]       \* state whose replica slot was k
      acc(i) == Cardinality({c \in 1..NCh : dec[c][i]})
      permuted == \A c \in 1..NCh : Range(after[c]) = Range(st.ids[c])
      gap(t, i) == t[i] - t[i - 1]
      tl == e.t2
  IN [st |-> [ids |-> IF permuted THEN after ELSE st.ids, t |-> IF Len(tl) = R THEN tl ELSE st.t,
              training |-> st.training, accs |-> IF ok THEN [i \in 1..(R - 1) |-> acc(i)] ELSE <<>>],
      bad |-> C(shape, "swap-shape")
        \o C(e.t = st.t, "ladder-changed-between-calls")
        \o C(e.input = "same", "swap-input-modified")
        \o (IF shape THEN
             C(permuted, "swap-not-a-permutation")
          \o C(~permuted \/ ok, "swap-not-a-neighbour-sweep")
          \o (IF permuted THEN
                C(\A c \in 1..NCh : \A k \in 1..R : was(c, k).ctr = e.ctr0[c][k] + Cfg.n, "swap-number-of-steps")
             \o C(\A c \in 1..NCh : \A k \in 1..R : was(c, k).err = 0, "swap-carry")
             \o (IF e.temper THEN C(\A c \in 1..NCh : \A k \in 1..R :
                    Near(was(c, k).tv, DivF(e.ll[st.ids[c][k]], e.t[k]) + e.pr[st.ids[c][k]],
                         6 + Abs(e.ll[st.ids[c][k]]) \div 3000), "temper-value") ELSE <<>>)
              ELSE <<>>)
          \o (IF ok /\ e.rule THEN C(\A c \in 1..NCh : RuleOk(e, c, st.ids[c], dec[c]), "swap-rule") ELSE <<>>)
            ELSE <<>>)
        \o C(Len(tl) = R, "ladder-length")
        \o (IF Len(tl) = R THEN
             C(tl[1] = SC, "ladder-coldest-not-one")
          \o C(tl[R] = Cfg.tmax, "ladder-hottest-not-maximum")
          \o C(\A i \in 1..(R - 1) : tl[i] < tl[i + 1], "ladder-order")
          \o (IF ~st.training THEN C(e.tbits2 = e.tbits, "ladder-changed-in-production")
              ELSE IF ok THEN C(\A i \in 2..(R - 1) :
                 CASE acc(i - 1) > acc(i) -> gap(tl, i) > gap(st.t, i) + 1
                   [] acc(i - 1) < acc(i) -> gap(tl, i) < gap(st.t, i) - 1
                   [] OTHER -> Abs(gap(tl, i) - gap(st.t, i)) <= 2 + gap(st.t, i) \div 20000, "ladder-adaptation")
              ELSE <<>>)
            ELSE <<>>)]
(* log-likelihood over temperature plus log-prior; a likelihood or prior of minus infinity stays so.     *)
LogValue(ll, tc, lp) == IF ~IsNum(ll) THEN ll ELSE IF ~IsNum(lp) THEN lp ELSE DivF(ll, tc) + lp
Step(w, e) ==
  CASE e.op = "call" -> Call(e)
    [] e.op = "switch" -> [st |-> [w EXCEPT !.training = ~w.training], bad |-> <<>>]
    [] e.op = "uniforms" ->
        [st |-> w, bad |-> C(UnifOk(e.a), "swap-variate-not-uniform")
           \o C(e.b = <<>> \/ IndepOk(e.a, e.b, 2048, 2048), "swap-variates-dependent")]
    [] e.op = "rare" -> [st |-> w, bad |-> C(CountOk(e.count, ((e.n \div 1000) * RarePpm[e.k]) \div 1000), "swap-rare-exchanges")]
    (* values of the target resources at points: e.l = log-likelihood, e.p = log-prior,              *)
    (* e.t = temperature, e.v = tempered value, e.u = untempered value                                *)
    [] e.op = "pdf" ->
        [st |-> w, bad |-> C(NearSeq(e.u, e.l, 2), "temper-untempered-value")
           \o C(NearSeq(e.v, [i \in 1..Len(e.l) |-> LogValue(e.l[i], e.t[i], e.p[i])], e.tol), "temper-tempered-value")
           \o C(\A i \in 1..Len(e.l) : e.t[i] = SC => Near(e.v[i], LogValue(e.l[i], SC, e.p[i]), 2), "temper-posterior")]
    [] e.op = "equal" -> [st |-> w, bad |-> C(NearSeq(e.a, e.b, e.tol), e.what)]
    [] e.op = "ladder" -> [st |-> w, bad |-> C(e.t[1] = SC, "ladder-coldest-not-one") \o C(e.t[Len(e.t)] = e.tmax, "ladder-hottest-not-maximum")
           \o C(Len(e.t) = e.r, "ladder-length")
           \o C(\A i \in 1..(Len(e.t) - 1) : e.t[i] < e.t[i + 1], "ladder-order")
           \o C(e.frozen = "no" \/ e.tbits = e.tbits0, "ladder-changed-in-production")]
Init == tid \in 1..Len(Traces) /\ l = 1 /\ bad = <<>>
        /\ st = [ids |-> Traces[tid].cfg.ids, t |-> Traces[tid].cfg.t, training |-> TRUE, accs |-> <<>>]
Next == /\ l <= Len(Ev)
        /\ LET r == Step(st, Ev[l]) IN st' = r.st /\ bad' = Add(bad, l, r.bad)
        /\ l' = l + 1 /\ UNCHANGED tid
        /\ (l = Len(Ev) => Verdict(tid, bad'))
=============================================================================
