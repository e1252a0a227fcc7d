-------------------------------- MODULE Num --------------------------------
(* Unsigned integers wider than TLC's 31 bits, as big-endian tuples of 16-bit
   limbs: a u32 is a pair, a u64 a 4-tuple.  Operands of one operation have the
   same number of limbs.  16-bit quantities are plain integers. *)
EXTENDS Integers, Sequences

LimbBase == 65536

NumLt(a, b) ==
    \E i \in 1..Len(a) : a[i] < b[i] /\ \A j \in 1..(i - 1) : a[j] = b[j]
NumLeq(a, b) == a = b \/ NumLt(a, b)
NumMin(a, b) == IF NumLt(a, b) THEN a ELSE b

(* sum and difference, with carry / borrow out *)
RECURSIVE AddFrom(_, _, _, _)
AddFrom(a, b, i, carry) ==
    IF i = 0 THEN [ok |-> carry = 0, v |-> <<>>]
    ELSE LET s == a[i] + b[i] + carry
             r == AddFrom(a, b, i - 1, s \div LimbBase)
         IN [ok |-> r.ok, v |-> Append(r.v, s % LimbBase)]
Add(a, b) == AddFrom(a, b, Len(a), 0)

RECURSIVE SubFrom(_, _, _, _)
SubFrom(a, b, i, borrow) ==
    IF i = 0 THEN [ok |-> borrow = 0, v |-> <<>>]
    ELSE LET d == a[i] - b[i] - borrow
             r == SubFrom(a, b, i - 1, IF d < 0 THEN 1 ELSE 0)
         IN [ok |-> r.ok, v |-> Append(r.v, (d + LimbBase) % LimbBase)]
Sub(a, b) == SubFrom(a, b, Len(a), 0)

NumMax(n) == [i \in 1..n |-> LimbBase - 1]
SatAdd(a, b) == LET s == Add(a, b) IN IF s.ok THEN s.v ELSE NumMax(Len(a))

U32(n) == <<n \div LimbBase, n % LimbBase>>
U64(n) == <<0, 0, n \div LimbBase, n % LimbBase>>
(* the value, where it fits TLC's integers *)
Small(a) == \A i \in 1..(Len(a) - 2) : a[i] = 0 /\ a[Len(a) - 1] < 32768
ToInt(a) == a[Len(a) - 1] * LimbBase + a[Len(a)]
(* the value capped at 2^30 *)
Capped(a) ==
    IF (\A i \in 1..(Len(a) - 2) : a[i] = 0) /\ a[Len(a) - 1] < 16384
    THEN ToInt(a) ELSE 1073741824
=============================================================================
