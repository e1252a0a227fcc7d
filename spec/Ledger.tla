------------------------------- MODULE Ledger -------------------------------
(* The ledgers the attach command is pointed at: for each slot, nothing or one
   stored duplicate proof of some kind.  The fixtures under /verif/fixtures are
   databases with exactly this content (see `make ledgers` in DESIGN.md).

   Kinds of stored proof:
     d   two data shreds of one index with different contents
     c   two coding shreds announcing different erasure layouts
     s   twice the same shred: proves nothing
     u   a conflict, but signed by somebody else
     l   legacy shreds, which have no Merkle root
     z   a few bytes that are no shreds at all
     g   nothing: no duplicate proof for the slot                            *)
EXTENDS Conflict, Wire

KindNames == {"d", "c", "s", "u", "l", "z", "g"}
\* every ordered pair of kinds stands next to each other somewhere
MainSeq == << "d","d","c","d","s","d","u","d","l","d","z","d","g","c","c","s","c","u","c","l","c","z","c","g",
              "s","s","u","s","l","s","z","s","g","u","u","l","u","z","u","g","l","l","z","l","g","z","z","g","g","d" >>
ASSUME \A x \in KindNames, y \in KindNames : \E i \in 1..(Len(MainSeq) - 1) : MainSeq[i] = x /\ MainSeq[i + 1] = y
Base == 1000
Main  == [s \in Base..(Base + Len(MainSeq) - 1) |-> MainSeq[s - Base + 1]]
Early == (1000 :> "d") @@ (1001 :> "s") @@ (1003 :> "c")
Later == Early @@ (1002 :> "d") @@ (1004 :> "d") @@ (1007 :> "c")
Empty == <<>>
KindAt(led, s) ==
    LET l == CASE led = "main" -> Main [] led = "early" -> Early [] led = "later" -> Later [] OTHER -> Empty
    IN IF s \in DOMAIN l THEN l[s] ELSE "g"
SlotsOf(led) ==
    LET l == CASE led = "main" -> Main [] led = "early" -> Early [] led = "later" -> Later [] OTHER -> Empty
    IN {s \in DOMAIN l : l[s] # "g"}

\* ------------------------------------------------------------------ proofs
Nm(x, s) == x \o ToString(s)
LData(s, x) ==
    [va |-> 150, slot |-> U64(s), idx |-> U32(66), ver |-> 7, fec |-> U32(64), par |-> 1, fl |-> 0,
     body |-> Nm(x, s), by |-> "N1", tree |-> Nm(x, s), rs |-> "r1", tr |-> 0, len |-> -1]
LCode(s, x, idx, nd, pos) ==
    [va |-> 118, slot |-> U64(s), idx |-> U32(idx), ver |-> 7, fec |-> U32(64), nd |-> nd, nc |-> 32, pos |-> pos,
     body |-> Nm(x, s), by |-> "N1", tree |-> Nm("k", s), rs |-> "r1", tr |-> 0, len |-> -1]
ProofOf(k, s) ==
    CASE k = "d" -> <<LData(s, "p"), LData(s, "q")>>
      [] k = "c" -> <<LCode(s, "p", 66, 32, 2), LCode(s, "q", 67, 30, 3)>>
      [] k = "s" -> <<LData(s, "p"), LData(s, "p")>>
      [] k = "u" -> <<[LData(s, "p") EXCEPT !.by = "X"], [LData(s, "q") EXCEPT !.by = "X"]>>
      [] k = "l" -> <<[LData(s, "p") EXCEPT !.va = 165], [LData(s, "q") EXCEPT !.va = 165]>>
      [] k = "z" -> <<[LData(s, "p") EXCEPT !.len = 3], [LData(s, "q") EXCEPT !.len = 0]>>
\* is it a proof the program takes, against `node`?
Takes(k, s, node) ==
    LET p == ProofOf(k, s) IN
    /\ EvidenceFaults(U64(s), p[1], p[2]) = {}
    /\ p[1].by = node /\ p[2].by = node
\* can a submission be assembled from it at all?
HasRoots(k) == k \notin {"l", "z"}
ASSUME \A k \in KindNames \ {"g"} : Takes(k, 1000, "N1") <=> k \in {"d", "c"}
ASSUME \A k \in KindNames \ {"g"} : ~Takes(k, 1000, "N2")

SN(x, s) == x \o ToString(s)
ShredsAt(k, s) ==
    LET p == ProofOf(k, s) IN (SN("a", s) :> ShredTerm(p[1])) @@ (SN("b", s) :> ShredTerm(p[2]))
ProofParts(s) ==
    << <<"shredlen", SN("a", s)>>, <<"shred", SN("a", s)>>, <<"shredlen", SN("b", s)>>, <<"shred", SN("b", s)>> >>
ProofLenOf(k, s) == 8 + Length(ProofOf(k, s)[1]) + Length(ProofOf(k, s)[2])
=============================================================================
