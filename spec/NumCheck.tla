------------------------------ MODULE NumCheck ------------------------------
(* The numbers of module Num against the integers: everything about sequences of
   limbs holds in every small base and length (Num is uniform in both).          *)
EXTENDS Num
CONSTANTS Base, Width
VARIABLES a, b

RECURSIVE Val(_)
Val(x) == IF x = <<>> THEN 0 ELSE Val(SubSeq(x, 1, Len(x) - 1)) * LimbBase + x[Len(x)]
Limbs == [1..Width -> 0..(LimbBase - 1)]
RECURSIVE Pow(_, _)
Pow(m, n) == IF n = 0 THEN 1 ELSE m * Pow(m, n - 1)
All == Pow(LimbBase, Width)

Init == a \in Limbs /\ b \in Limbs
Next == FALSE /\ UNCHANGED <<a, b>>

Order == /\ NumLt(a, b) = (Val(a) < Val(b))
         /\ NumLeq(a, b) = (Val(a) <= Val(b))
         /\ Val(NumMin(a, b)) = (IF Val(a) < Val(b) THEN Val(a) ELSE Val(b))
Sum == LET s == Add(a, b) IN
    /\ s.ok = (Val(a) + Val(b) < All)
    /\ s.v \in Limbs
    /\ Val(s.v) = (Val(a) + Val(b)) % All
Difference == LET s == Sub(a, b) IN
    /\ s.ok = (Val(a) >= Val(b))
    /\ s.v \in Limbs
    /\ Val(s.v) = (Val(a) - Val(b) + All) % All
Saturating == Val(SatAdd(a, b)) = (IF Val(a) + Val(b) < All THEN Val(a) + Val(b) ELSE All - 1)
=============================================================================
