------------------------------- MODULE Steps --------------------------------
(* One accept/reject step on extended numbers: a chain is [x, lp]; a proposal y with target value  *)
(* lpy and proposal correction qc; log-uniform u.  Comparisons with NaN are false.                 *)
EXTENDS Integers, Sequences
NaNv == "nan"
NIv == "ninf"
PIv == "pinf"
Fin(v) == v \notin {NaNv, NIv, PIv}
\* a - b on extended numbers (values wrapped as <<"n", k>> to keep types apart)
Num(k) == <<"n", k>>
IsN(v) == v[1] = "n"
NaN_ == <<"nan">>
NI_ == <<"ninf">>
PI_ == <<"pinf">>
Neg(v) == IF IsN(v) THEN Num(-v[2]) ELSE IF v = NI_ THEN PI_ ELSE IF v = PI_ THEN NI_ ELSE NaN_
Plus(a, b) == IF a = NaN_ \/ b = NaN_ THEN NaN_
              ELSE IF IsN(a) /\ IsN(b) THEN Num(a[2] + b[2])
              ELSE IF IsN(a) THEN b
              ELSE IF IsN(b) THEN a
              ELSE IF a = b THEN a ELSE NaN_
Less(a, b) == IF a = NaN_ \/ b = NaN_ THEN FALSE
              ELSE IF IsN(a) /\ IsN(b) THEN a[2] < b[2]
              ELSE IF a = b THEN FALSE
              ELSE a = NI_ \/ b = PI_
Ratio(lpx, lpy, qc) == Plus(Plus(lpy, Neg(lpx)), qc)
Accepts(u, r) == Less(u, r)
Post(ch, y, lpy, qc, u) ==
  LET a == Accepts(u, Ratio(ch.lp, lpy, qc))
  IN [x |-> IF a THEN y ELSE ch.x, lp |-> IF a THEN lpy ELSE ch.lp, acc |-> a]
=============================================================================
