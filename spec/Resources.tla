----------------------------- MODULE Resources ------------------------------
(* Buffers and states as objects, several holders of one object, files.                              *)
(* A buffer: [name, shape, data, cursor, cdim]; data: row-major sequence; cdim 0-based, as in the code. *)
(* A state: [name, data] with data a function from keys to typed values.                              *)
EXTENDS Integers, Sequences, FiniteSets
UNSET == 2000000003                 \* minus infinity
RECURSIVE Prod(_)
Prod(s) == IF s = <<>> THEN 1 ELSE Head(s) * Prod(Tail(s))
\* index (0-based) along dimension d (0-based) of flat position p (0-based)
Along(shape, d, p) == (p \div Prod(SubSeq(shape, d + 2, Len(shape)))) % shape[d + 1]
New(name, shape, cdim) ==
  [name |-> name, shape |-> shape, data |-> [i \in 1..Prod(shape) |-> UNSET], cursor |-> 0, cdim |-> cdim]
\* the slab: length n along cdim, row-major sequence of its own values
Slab(shape, cdim, n) == [shape EXCEPT ![cdim + 1] = n]
\* flat position inside the slab of flat position p of the buffer
InSlab(shape, cdim, n, start, p) ==
  LET rest == Prod(SubSeq(shape, cdim + 2, Len(shape)))
      k == Along(shape, cdim, p)
      outer == p \div (rest * shape[cdim + 1])
  IN outer * rest * n + (k - start) * rest + (p % rest)
Update(b, vals, n, start) ==
  [b EXCEPT !.data = [i \in 1..Len(b.data) |->
      LET k == Along(b.shape, b.cdim, i - 1)
      IN IF k >= start /\ k < start + n THEN vals[InSlab(b.shape, b.cdim, n, start, i - 1) + 1] ELSE b.data[i]]]
SetCursor(b, c) == [b EXCEPT !.cursor = c]
\* keys: sequence of keys, vals: sequence of values; the last value of a repeated key stands
RECURSIVE Put(_, _, _, _)
Put(d, keys, vals, i) ==
  IF i > Len(keys) THEN d
  ELSE Put([k \in DOMAIN d \union {keys[i]} |-> IF k = keys[i] THEN vals[i] ELSE d[k]], keys, vals, i + 1)
UpdateState(s, keys, vals) == [s EXCEPT !.data = Put(s.data, keys, vals, 1)]
=============================================================================
