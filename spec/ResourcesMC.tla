---------------------------- MODULE ResourcesMC -----------------------------
(* Objects obj[1..n], holders pointing to objects, files holding copies.  Ghost: what each cell of the   *)
(* object a holder points to was last set to, as that holder's user sees it.                            *)
EXTENDS Resources
CONSTANTS Variant, Depth, Shape
VARIABLES obj, hold, file, ghost, fghost, n, now
vars == <<obj, hold, file, ghost, fghost, n, now>>
D == 1..2            \* cursor dimensions explored: 0 and 1
H == 1..2
None == [name |-> "", shape |-> <<>>, data |-> <<>>, cursor |-> 0, cdim |-> 0]
\* ghost per object: cell function on index tuples, cursor, dimension
Cells(shape) == {<<i, j>> : i \in 0..(shape[1] - 1), j \in 0..(shape[2] - 1)}
Flat(shape, c) == c[1] * shape[2] + c[2] + 1
GNew(cd) == [cell |-> [c \in Cells(Shape) |-> UNSET], cursor |-> 0, cdim |-> cd]
Init == \E cd \in 0..1 :
        /\ obj = <<New("b", Shape, cd)>> /\ hold = [h \in H |-> 1] /\ ghost = <<GNew(cd)>>
        /\ file = None /\ fghost = GNew(0) /\ n = 0 /\ now = 0
Write(h) == LET o == hold[h]  b == obj[o] IN
  \E len \in 1..b.shape[b.cdim + 1] : \E start \in 0..(b.shape[b.cdim + 1] - len) :
    LET sl == Slab(b.shape, b.cdim, len)
        vals == [i \in 1..Prod(sl) |-> 10 * (n + 1) + i]
        nb == IF Variant = "dim0" /\ b.cdim = 1 /\ b.shape[1] = b.shape[2]
              THEN [Update([b EXCEPT !.cdim = 0], vals, len, start) EXCEPT !.cdim = 1] ELSE Update(b, vals, len, start)
        g == ghost[o]
        ng == [g EXCEPT !.cell = [c \in Cells(Shape) |->
                 LET k == c[g.cdim + 1]  IN
                 IF k >= start /\ k < start + len
                 THEN 10 * (n + 1) + (IF g.cdim = 0 THEN (c[1] - start) * Shape[2] + c[2] + 1 ELSE c[1] * len + (c[2] - start) + 1)
                 ELSE g.cell[c]]]
    IN /\ IF Variant = "copy"
          THEN obj' = Append(obj, nb) /\ hold' = [hold EXCEPT ![h] = Len(obj) + 1] /\ ghost' = Append([ghost EXCEPT ![o] = ng], ng)
          ELSE obj' = [obj EXCEPT ![o] = nb] /\ hold' = hold /\ ghost' = [ghost EXCEPT ![o] = ng]
       /\ UNCHANGED <<file, fghost>>
Move(h) == \E c \in 1..2 : /\ obj' = [obj EXCEPT ![hold[h]] = SetCursor(@, c)] /\ ghost' = [ghost EXCEPT ![hold[h]].cursor = c]
                           /\ UNCHANGED <<hold, file, fghost>>
Save(h) == /\ file' = (IF Variant = "saveref" THEN [obj[hold[h]] EXCEPT !.name = "ref"] ELSE obj[hold[h]])
           /\ fghost' = ghost[hold[h]] /\ UNCHANGED <<obj, hold, ghost>>
Load(h) == /\ file # None
           /\ LET f0 == IF Variant = "saveref" THEN [obj[1] EXCEPT !.name = "b"] ELSE file
                  f == IF Variant = "cursor" THEN [f0 EXCEPT !.cursor = 0] ELSE IF Variant = "cdim" THEN [f0 EXCEPT !.cdim = 0] ELSE f0
              IN obj' = Append(obj, f) /\ hold' = [hold EXCEPT ![h] = Len(obj) + 1]
           /\ ghost' = Append(ghost, fghost) /\ UNCHANGED <<file, fghost>>
Next == n < Depth /\ n' = n + 1 /\ now' = n /\ \E h \in H : Write(h) \/ Move(h) \/ Save(h) \/ Load(h)
Agree(b, g) == b.cursor = g.cursor /\ b.cdim = g.cdim /\ \A c \in Cells(Shape) : b.data[Flat(Shape, c)] = g.cell[c]
\* every holder of an object sees the same; "copy" breaks this, and every holder sees what was written last
Inv == (\A o \in 1..Len(obj) : Agree(obj[o], ghost[o])) 
Shape23 == <<2, 3>>
Shape22 == <<2, 2>>
=============================================================================
