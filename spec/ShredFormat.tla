---------------------------- MODULE ShredFormat ----------------------------
(* The network's Merkle shred format.

   A shred is a record
     va    variant byte
     slot  u64    idx  u32    ver  u16    fec  u32
     par, fl               (data)  parent offset, flags byte
     nd, nc, pos           (code)  data shreds / coding shreds in the FEC set,
                                   position among the coding shreds
     body  identity of the payload bytes after the headers
     by    who signed it
     tree  identity of the Merkle tree it is a leaf of (with `va`'s proof
           length this identifies the Merkle root)
     rs    identity of the retransmitter's signature
     tr    number of bytes following the end of the shred
     len   -1, or the number of bytes the payload is cut to
     sc    (if there) its signature is one of only the first `sc` bytes of the root
     sn    (if there) its signature is one of its root with a bit of byte `sn` changed
     sx    (if there) its signature has a bit of byte `sx` changed
     cp    (if there) its signature is that of the shred of this name
   A Merkle root is the free term (tree, proof length), i.e. hashing is assumed
   collision free: two leaves of one tree at one position are equal. *)
EXTENDS Num, TLC

\* ------------------------------------------------------------ variants
Hi(va) == va \div 16
Kind(va) ==
    CASE va = 90 \/ va = 165           -> "legacy"    \* 0x5a, 0xa5
      [] Hi(va) \in {4, 6, 7}          -> "code"
      [] Hi(va) \in {8, 9, 11}         -> "data"
      [] OTHER                         -> "unknown"
Merkle(va)   == Kind(va) \in {"code", "data"}
Proof(va)    == va % 16                                \* entries
Chained(va)  == Hi(va) \in {6, 7, 9, 11}
Resigned(va) == Hi(va) \in {7, 11}
Variants     == {va \in 0..255 : Merkle(va)}

\* -------------------------------------------------------------- layout
SigLen == 64
CommonHeader == SigLen + 1 + 8 + 4 + 2 + 4             \* 83
HeaderLen(va)  == IF Kind(va) = "code" THEN CommonHeader + 6 ELSE CommonHeader + 5
PayloadLen(va) == IF Kind(va) = "code" THEN 1228 ELSE 1203
ChainLen(va)   == IF Chained(va) THEN 32 ELSE 0
ProofLen(va)   == 20 * Proof(va)
ResignLen(va)  == IF Resigned(va) THEN 64 ELSE 0
Capacity(va) ==
    PayloadLen(va) - HeaderLen(va) - ChainLen(va) - ProofLen(va) - ResignLen(va)
ProofStart(va) == HeaderLen(va) + Capacity(va) + ChainLen(va)
ProofEnd(va)   == ProofStart(va) + ProofLen(va)

ASSUME \A va \in Variants :
          /\ Capacity(va) > 0
          /\ ProofEnd(va) + ResignLen(va) = PayloadLen(va)

\* ------------------------------------------------------------- decoding
Type(s)   == Kind(s.va)
IsCode(s) == Type(s) = "code"
IsData(s) == Type(s) = "data"
\* LAST_SHRED_IN_SLOT needs both of its bits
IsLast(s) == IsData(s) /\ s.fl >= 192
Root(s)   == <<s.tree, Proof(s.va)>>

Pow2(n) == LET RECURSIVE P(_)
               P(k) == IF k = 0 THEN 1 ELSE 2 * P(k - 1)
           IN P(n)

\* position of the shred in its erasure batch = leaf of its Merkle tree
LeafOk(s) == IF IsData(s) THEN Sub(s.idx, s.fec).ok ELSE TRUE
Leaf(s)   == IF IsData(s) THEN Capped(Sub(s.idx, s.fec).v) ELSE s.nd + s.pos
LeafFits(s) == LeafOk(s) /\ Leaf(s) < Pow2(Proof(s.va))

\* end of the data range announced by a coding shred
RangeEnd(s) == Add(s.fec, U32(s.nd))
\* erasure layout announced by a coding shred
FirstCoding(s) == Sub(s.idx, U32(s.pos))
Layout(s) == <<s.nd, s.nc, FirstCoding(s).v>>

FullLen(s) == PayloadLen(s.va) + s.tr
Length(s)  == IF s.len < 0 \/ s.len > FullLen(s) THEN FullLen(s) ELSE s.len

\* everything a shred says; who retransmitted it and what follows it is not
\* part of it
Content(s) ==
    <<s.va, s.slot, s.idx, s.ver, s.fec,
      IF "fl" \in DOMAIN s THEN <<s.par, s.fl>> ELSE <<s.nd, s.nc, s.pos>>,
      s.body, s.by, Root(s)>>

\* the leaf hash covers all of it but the signature and the proof
LeafContent(s) ==
    <<s.va, s.slot, s.idx, s.ver, s.fec,
      IF IsData(s) THEN <<s.par, s.fl>> ELSE <<s.nd, s.nc, s.pos>>, s.body>>

\* can the two shreds be leaves of one tree?
SameTreePossible(a, b) ==
    /\ Proof(a.va) = Proof(b.va)
    /\ LeafFits(a) /\ LeafFits(b)
    /\ (Leaf(a) # Leaf(b) \/ LeafContent(a) = LeafContent(b))
Consistent(a, b) ==
    (Merkle(a.va) /\ Merkle(b.va)) =>
        IF Root(a) = Root(b) THEN SameTreePossible(a, b) \/ LeafContent(a) = LeafContent(b)
        \* the root of a tree without siblings is its only leaf
        ELSE Proof(a.va) = 0 /\ Proof(b.va) = 0 => LeafContent(a) # LeafContent(b)

\* ---------------------------------------------------------- faults, parsing
(* Faults of one shred, named by the error code documenting them *)
ShredFaults(s) ==
    IF Length(s) <= SigLen THEN {"ShredDeserializationError"}
    ELSE IF Kind(s.va) = "legacy" THEN {"LegacyShreds"}
    ELSE IF Kind(s.va) = "unknown" THEN {"InvalidShredVariant"}
    ELSE
      (IF Length(s) < ProofEnd(s.va)
         THEN {"InvalidMerkleShred", "ShredDeserializationError"} ELSE {})
      \cup (IF ~LeafOk(s) THEN {"ShredDeserializationError", "InvalidMerkleShred"} ELSE {})
      \cup (IF LeafOk(s) /\ ~LeafFits(s) THEN {"InvalidMerkleShred"} ELSE {})

\* header fields no leader writes; the code may refuse them or not look
Odd(s) ==
    Merkle(s.va) /\
    (\/ IsCode(s) /\ ~RangeEnd(s).ok
     \/ IsCode(s) /\ ~FirstCoding(s).ok
     \/ Length(s) < PayloadLen(s.va))
OddFaults(s) ==
    IF Odd(s) THEN {"ShredDeserializationError", "InvalidMerkleShred"} ELSE {}
WellFormed(s) == ShredFaults(s) = {} /\ ~Odd(s)

\* ------------------------------------------------------------------- bytes
\* payload from the end of the signature to the Merkle proof
PreProof(s) ==
    LET v == s.va
        h == << <<"u8", v>>, <<"u64", s.slot>>, <<"u32", s.idx>>, <<"u16", s.ver>>,
                <<"u32", s.fec>> >>
        k == IF IsData(s)
             THEN << <<"u16", s.par>>, <<"u8", s.fl>>,
                  <<"u16", IF HeaderLen(v) + Capacity(v) < 1051 THEN HeaderLen(v) + Capacity(v) ELSE 1051>> >>
             ELSE << <<"u16", s.nd>>, <<"u16", s.nc>>, <<"u16", s.pos>> >>
        b == << <<"f", s.body, Capacity(v)>> >>
        c == IF Chained(v) THEN << <<"f", "chain", 32>> >> ELSE <<>>
    IN h \o k \o b \o c
\* a shred of unknown layout: only the variant byte matters
RawPre(s) ==
    << <<"u8", s.va>>, <<"u64", s.slot>>, <<"u32", s.idx>>, <<"u16", s.ver>>,
       <<"u32", s.fec>>, <<"f", s.body, 1120>> >>
PostProof(s) ==
    (IF Resigned(s.va) THEN << <<"f", s.rs, 64>> >> ELSE <<>>)
    \o (IF s.tr > 0 THEN << <<"f", "trail", s.tr>> >> ELSE <<>>)

ShredTerm(s) ==
    LET m == Merkle(s.va) IN
    [by |-> s.by,
     tree |-> IF m THEN s.tree ELSE "raw" \o ToString(s.va) \o s.body,
     leaf |-> IF m /\ LeafOk(s) THEN Leaf(s) ELSE 0,
     depth |-> IF m THEN Proof(s.va) ELSE 0,
     pre |-> IF m THEN PreProof(s) ELSE RawPre(s),
     post |-> IF m THEN PostProof(s) ELSE <<>>]
    @@ (IF s.len >= 0 THEN [cut |-> s.len] ELSE <<>>)
    @@ (IF "sc" \in DOMAIN s THEN [sigcut |-> s.sc] ELSE <<>>)
    @@ (IF "sn" \in DOMAIN s THEN [signear |-> s.sn] ELSE <<>>)
    @@ (IF "sx" \in DOMAIN s THEN [sigflip |-> s.sx] ELSE <<>>)
    @@ (IF "cp" \in DOMAIN s THEN [sigof |-> s.cp] ELSE <<>>)
=============================================================================
