------------------------------ MODULE StepsMC -------------------------------
EXTENDS Steps, FiniteSets, TLC
CONSTANTS Variant, K, Len0
Xs == 1..K
Vals == {Num(0), Num(2), NI_, NaN_}
VARIABLES T, ch, prev, n, started
vars == <<T, ch, prev, n, started>>
Us == {Num(-3), Num(-1), Num(0)}
Qs == {Num(0), Num(-2), NaN_}
Init == /\ T \in [Xs -> Vals] /\ \E x \in Xs : (T[x] # NaN_ /\ ch = [x |-> x, lp |-> T[x], acc |-> FALSE])
        /\ prev = ch /\ n = 0 /\ started = ch.lp
Wrong(y, qc, u) ==
  LET r == Ratio(ch.lp, T[y], qc) IN
  CASE Variant = "unless" ->          \* accept unless u >= ratio: NaN passes
        LET a == ~(Less(r, u) \/ r = u) IN [x |-> IF a THEN y ELSE ch.x, lp |-> IF a THEN T[y] ELSE ch.lp, acc |-> a]
    [] Variant = "lpproposed" ->
        LET a == Accepts(u, r) IN [x |-> IF a THEN y ELSE ch.x, lp |-> T[y], acc |-> a]
    [] Variant = "nan2zero" ->        \* an undefined ratio counts as zero
        LET a == Accepts(u, IF r = NaN_ THEN Num(0) ELSE r)
        IN [x |-> IF a THEN y ELSE ch.x, lp |-> IF a THEN T[y] ELSE ch.lp, acc |-> a]
    [] Variant = "lpstale" ->
        LET a == Accepts(u, r) IN [x |-> IF a THEN y ELSE ch.x, lp |-> ch.lp, acc |-> a]
    [] OTHER -> Post(ch, y, T[y], qc, u)
Next == /\ n < Len0
        /\ \E y \in Xs, u \in Us, qc \in Qs : ch' = Wrong(y, qc, u)
        /\ prev' = ch /\ n' = n + 1 /\ UNCHANGED <<T, started>>
Consistent == ch.lp = T[ch.x]
StaysFinite == IsN(started) => IsN(ch.lp)
NeverInvalid == n > 0 /\ ch.acc => IsN(ch.lp)
RejectHolds == n > 0 /\ ~ch.acc => (ch.x = prev.x /\ ch.lp = prev.lp)
LeavesZero == n > 0 /\ prev.lp = NI_ /\ IsN(ch.lp) => ch.acc
Inv == LeavesZero /\ Consistent /\ StaysFinite /\ NeverInvalid /\ RejectHolds
=============================================================================
