------------------------------ MODULE TraceLib ------------------------------
(* Shared by all trace specifications: the recorded traces, numbers with sentinels for   *)
(* NaN and infinities, fixed-point arithmetic that stays inside TLC's 32-bit integers.   *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils

Traces == JsonDeserialize(IOEnv.TRACE_FILE)     \* a sequence of [id, cfg, ev]

(* A clause: the empty sequence if it holds, its name otherwise. *)
C(cond, name) == IF cond THEN <<>> ELSE <<name>>

RECURSIVE FlatBad(_)
FlatBad(ss) == IF ss = <<>> THEN <<>> ELSE Head(ss) \o FlatBad(Tail(ss))

Verdict(tid, bad) == PrintT(ToJson([tid |-> tid, bad |-> bad]))
Mark(l, names) == [i \in 1..Len(names) |-> [l |-> l, c |-> names[i]]]
\* keep verdicts short: the first few failures of a trace are enough
Add(bad, l, names) == IF Len(bad) >= 6 THEN bad ELSE bad \o Mark(l, names)

(* ---- numbers ---- *)
NaN == 2000000001
PInf == 2000000002
NInf == 2000000003
IsNum(v) == v < 2000000000
IsInvalid(v) == v = NaN \/ v = NInf
Abs(x) == IF x < 0 THEN -x ELSE x
Max(a, b) == IF a > b THEN a ELSE b
Min(a, b) == IF a < b THEN a ELSE b
Sgn(x) == IF x > 0 THEN 1 ELSE IF x < 0 THEN -1 ELSE 0
\* both are numbers and close, or both are the same non-number
Near(a, b, tol) == IF IsNum(a) /\ IsNum(b) THEN Abs(a - b) <= tol ELSE a = b
NearSeq(s, t, tol) == Len(s) = Len(t) /\ \A i \in 1..Len(s) : Near(s[i], t[i], tol)

RECURSIVE Sum(_)
Sum(s) == IF s = <<>> THEN 0 ELSE Head(s) + Sum(Tail(s))
RECURSIVE SumFrom(_, _)
SumFrom(f, i) == IF i = 0 THEN 0 ELSE f[i] + SumFrom(f, i - 1)
MaxSet(S) == CHOOSE x \in S : \A y \in S : y <= x
MinSet(S) == CHOOSE x \in S : \A y \in S : y >= x
Range(f) == {f[i] : i \in DOMAIN f}

ClampTo(x, m) == IF x > m THEN m ELSE IF x < -m THEN -m ELSE x

(* ---- fixed point, scale SC ---- *)
SC == 4096
\* a * b / SC, without overflow as long as the result has none; rounds down
MulF(a, b) == (a \div SC) * b + (a % SC) * (b \div SC) + ((a % SC) * (b % SC)) \div SC
\* a / b in fixed point, as long as the result has no overflow; rounds down; for large a and b (|a| < 2^25) b is
\* taken to 1 in 8192
DivP(a, b) == IF b < 524288 THEN (a \div b) * SC + ((a % b) * SC) \div b
              ELSE IF Abs(a) < 524288 THEN (a * SC) \div b ELSE (a * 64) \div (b \div 64)
DivF(a, b) == IF b > 0 THEN DivP(a, b) ELSE DivP(-a, -b)
DotF(u, v) == SumFrom([i \in 1..Len(u) |-> MulF(u[i], v[i])], Len(u))
MatVecF(m, v) == [i \in 1..Len(m) |-> DotF(m[i], v)]
AddV(u, v) == [i \in 1..Len(u) |-> u[i] + v[i]]
SubV(u, v) == [i \in 1..Len(u) |-> u[i] - v[i]]
ScaleF(a, v) == [i \in 1..Len(v) |-> MulF(v[i], a)]
=============================================================================
