------------------------------ MODULE Conflict ------------------------------
(* When do two shreds of one leader prove that it produced two blocks for one
   slot?  Declarative form of the five rules. *)
EXTENDS ShredFormat, FiniteSets

MerkleRootConflict(a, b) == a.fec = b.fec /\ Root(a) # Root(b)

\* b's FEC set begins strictly inside the data range announced by coding shred a
Overlaps(a, b) ==
    IsCode(a) /\ NumLt(a.fec, b.fec) /\ (~RangeEnd(a).ok \/ NumLt(b.fec, RangeEnd(a).v))
OverlapConflict(a, b) == Overlaps(a, b) \/ Overlaps(b, a)

SameSlotInBlock(a, b) == Type(a) = Type(b) /\ a.idx = b.idx
IndexConflict(a, b) == SameSlotInBlock(a, b) /\ Content(a) # Content(b)

BeyondLast(a, b) == IsData(a) /\ IsData(b) /\ IsLast(a) /\ NumLt(a.idx, b.idx)
LastIndexConflict(a, b) == BeyondLast(a, b) \/ BeyondLast(b, a)

ErasureConflict(a, b) ==
    IsCode(a) /\ IsCode(b) /\ a.fec = b.fec /\ a.idx # b.idx /\ Layout(a) # Layout(b)

Conflicts(a, b) ==
    (IF MerkleRootConflict(a, b) THEN {"merkle"} ELSE {})
    \cup (IF OverlapConflict(a, b) THEN {"overlap"} ELSE {})
    \cup (IF IndexConflict(a, b) THEN {"index"} ELSE {})
    \cup (IF LastIndexConflict(a, b) THEN {"last"} ELSE {})
    \cup (IF ErasureConflict(a, b) THEN {"erasure"} ELSE {})

\* Faults of a pair of parsed shreds, named by the code documenting each
PairFaults(slot, a, b) ==
    (IF a.slot # slot \/ b.slot # slot THEN {"SlotMismatch"} ELSE {})
    \cup (IF a.ver # b.ver THEN {"InvalidShredVersion"} ELSE {})
    \cup (IF Conflicts(a, b) # {} THEN {}
          ELSE IF Type(a) # Type(b) THEN {"ShredTypeMismatch"}
          ELSE IF a.idx = b.idx THEN {"InvalidPayloadProof"}
          ELSE IF IsData(a) THEN {"InvalidLastIndexConflict"}
          ELSE {"InvalidErasureMetaConflict"})

EvidenceFaults(slot, a, b) ==
    LET f == ShredFaults(a) \cup ShredFaults(b) IN
    IF Merkle(a.va) /\ Merkle(b.va) THEN f \cup PairFaults(slot, a, b) ELSE f
=============================================================================
