--------------------------- MODULE LedgerFixtures ---------------------------
(* The content of the ledger fixtures, for making them. *)
EXTENDS Ledger, Json
VARIABLE n
Init == n \in {"main", "early", "later"}
Next == FALSE /\ n' = n
RECURSIVE J(_, _)
J(l, T) == IF T = {} THEN <<>> ELSE LET s == CHOOSE s \in T : TRUE IN ShredsAt(KindAt(l, s), s) @@ J(l, T \ {s})
RECURSIVE L(_)
L(T) == IF T = {} THEN <<>> ELSE LET s == CHOOSE s \in T : TRUE IN <<s>> \o L(T \ {s})
Send == PrintT(ToJson([led |-> n, slots |-> L(SlotsOf(n)), shreds |-> J(n, SlotsOf(n))]))
=============================================================================
