----------------------------- MODULE GenEvidence -----------------------------
(* Pairs of shreds in an otherwise faultless submission: C01, C02, C13, C18. *)
EXTENDS Emit
CONSTANTS Family, Deep     \* which family; TRUE for the thorough domain
VARIABLE c

\* ---------------------------------------------------------------- grid
\* all fields near one FEC set
GridData ==
    { [DataShred(U32(i), U32(f)) EXCEPT !.fl = fl, !.body = b, !.tree = t] :
        i \in {66, 67, 70}, f \in {64, 66}, fl \in {64, 128, 192},
        b \in {"b1", "b2"}, t \in {"t1", "t2"} }
GridCode ==
    { [CodeShred(U32(i), U32(f), nd, nc, p) EXCEPT !.tree = t, !.body = b] :
        i \in {66, 67}, f \in {64, 66}, nd \in {2, 3}, nc \in {4, 5}, p \in {0, 1},
        b \in IF Deep THEN {"b1", "b2"} ELSE {"b1"}, t \in {"t1", "t2"} }
GridAtoms == GridData \cup GridCode

\* ------------------------------------------------------------- extremes
\* index arithmetic at the edges of u32 and u16, in all limbs
EdgeIdx == { U32(0), U32(1), <<0, 65535>>, <<1, 0>>, <<1, 1>>, <<65535, 65534>>, <<65535, 65535>> }
Minus(a, k) == Sub(a, U32(k)).v
EdgeData ==
    { [DataShred(i, f) EXCEPT !.fl = fl, !.tree = t, !.va = va] :
        i \in EdgeIdx, f \in EdgeIdx, fl \in {0, 192}, t \in {"t1", "t2"},
        va \in IF Deep THEN {134, 143} ELSE {143} }
EdgeCode ==
    { [CodeShred(i, f, nd, nc, p) EXCEPT !.tree = t, !.va = 79] :
        i \in {U32(1), <<1, 0>>, <<65535, 65535>>}, f \in EdgeIdx,
        nd \in {1, 2, 255, 256, 32767}, nc \in {256}, p \in {0, 1, 256},
        t \in IF Deep THEN {"t1", "t2"} ELSE {"t1"} }
EdgeAtoms == { s \in EdgeData \cup EdgeCode : IsData(s) => LeafFits(s) }
EdgeSeeds ==
    { s \in EdgeAtoms : s.tree = "t1" /\
        (Deep \/ (IsCode(s) => (s.nd + s.pos + s.idx[2] + s.fec[2]) % 5 = 1)) }

\* ---------------------------------------------------- versions and slots
VerData == { [DataShred(U32(66), U32(64)) EXCEPT !.ver = v, !.body = b, !.tree = b, !.slot = sl] :
               v \in {0, 1, 7, 255, 256, 65535}, b \in {"b1", "b2"}, sl \in {U64(1000)} }
SlotBase == <<257, 258, 259, 1000>>
SlotVals == { SlotBase } \cup
            { [SlotBase EXCEPT ![k] = @ + d] : k \in 1..4, d \in {1, 256} }
SlotData == { [DataShred(U32(66), U32(64)) EXCEPT !.slot = sl, !.body = b, !.tree = b] :
                sl \in SlotVals, b \in {"b1", "b2"} }

\* --------------------------------------------------------------- variants
\* small atoms of any variant, near one place
VarAtoms(va) ==
    IF Kind(va) = "data"
    THEN { [DataShred(U32(64 + d + e), U32(64 + e)) EXCEPT !.va = va, !.fl = fl, !.tree = t] :
              d \in {0, 1}, e \in {0, 1}, fl \in {0, 192}, t \in {"t1", "t2"} }
    ELSE { [CodeShred(U32(64 + i), U32(64 + e), nd, 2, p) EXCEPT !.va = va, !.tree = t] :
              i \in {1, 2}, e \in {0, 1}, nd \in {0, 1, 2}, p \in {0, 1}, t \in {"t1", "t2"} }
VarFit(va) == { s \in VarAtoms(va) : LeafFits(s) }
VarSum(s) == s.idx[2] + 3 * s.fec[2] + (IF IsData(s) THEN s.fl \div 64 ELSE 5 * s.nd + s.pos)
             + (IF s.tree = "t1" THEN 0 ELSE 7)

\* --------------------------------------------------- what counts as content
\* one shred twice, changed in one respect
Base(va) == IF Kind(va) = "data" THEN [DataShred(U32(66), U32(64)) EXCEPT !.va = va]
            ELSE [CodeShred(U32(66), U32(64), 2, 2, 1) EXCEPT !.va = va]
ContentVas == IF Deep THEN {va \in Variants : Proof(va) >= 2}
              ELSE {66, 70, 99, 102, 114, 118, 127, 130, 134, 147, 150, 178, 182, 191}
\* a change of what the leader wrote moves the shred to another tree (or place)
ContentChanges(s) ==
    { [s EXCEPT !.body = "b2", !.tree = "t2"], [s EXCEPT !.tree = "t2"],
      [s EXCEPT !.ver = 8, !.tree = "t2"] }
    \cup (IF IsData(s)
          THEN { [s EXCEPT !.par = 2, !.tree = "t2"], [s EXCEPT !.fl = 64, !.tree = "t2"],
                 [s EXCEPT !.fec = U32(65)], [s EXCEPT !.fec = U32(65), !.tree = "t2"],
                 [s EXCEPT !.idx = U32(67)], [s EXCEPT !.idx = U32(67), !.fec = U32(65)] }
          ELSE { [s EXCEPT !.nc = 3, !.tree = "t2"], [s EXCEPT !.nd = 1], [s EXCEPT !.pos = 0],
                 [s EXCEPT !.nd = 1, !.tree = "t2"],
                 [s EXCEPT !.idx = U32(65), !.pos = 0], [s EXCEPT !.fec = U32(65)] })
\* these are not content
OtherChanges(s) ==
    { [s EXCEPT !.tr = n, !.rs = r, !.len = l] :
        n \in {0, 1, 2, 64, 65}, r \in {"r1", "r2"},
        l \in {-1, PayloadLen(s.va) - 1, PayloadLen(s.va) - 63, PayloadLen(s.va) - 64,
               PayloadLen(s.va) - 65} }
ContentVersions(s) == OtherChanges(s) \cup ContentChanges(s)

\* --------------------------------------------------------------- malformed
MalAtoms ==
    LET d == DataShred(U32(66), U32(64))
        k == CodeShred(U32(66), U32(64), 2, 4, 1)
    IN { d, [d EXCEPT !.tree = "t2", !.body = "b2"], k, [k EXCEPT !.tree = "t2"],
         [d EXCEPT !.fec = U32(67), !.tree = "t3"],                  \* index before its set
         [d EXCEPT !.idx = U32(127), !.tree = "t3"],                 \* last place of the tree
         [d EXCEPT !.idx = U32(128), !.tree = "t3"],                 \* first beyond it
         [d EXCEPT !.idx = <<2, 64>>, !.tree = "t3"],                \* far beyond it
         [k EXCEPT !.nd = 62, !.tree = "t3"], [k EXCEPT !.nd = 63, !.tree = "t3"],
         [k EXCEPT !.nd = 65535, !.pos = 65535, !.tree = "t3"],
         [k EXCEPT !.pos = 70, !.nd = 0, !.tree = "t3"],
         [k EXCEPT !.idx = U32(0), !.tree = "t3"],                   \* position beyond index
         [k EXCEPT !.fec = <<65535, 65535>>, !.tree = "t3"],         \* set end overflows
         [d EXCEPT !.va = 90], [d EXCEPT !.va = 165],                \* legacy
         [d EXCEPT !.va = 0], [d EXCEPT !.va = 80], [d EXCEPT !.va = 160], [d EXCEPT !.va = 255],
         [d EXCEPT !.va = 86], [d EXCEPT !.va = 166], [d EXCEPT !.va = 32] }
    \cup { [d EXCEPT !.len = n, !.tree = "t2"] :
             n \in {0, 1, 63, 64, 65, 72, 73, 77, 79, 83, 85, 86, 87, 88, 500, 1082, 1083, 1202} }
    \cup { [k EXCEPT !.len = n, !.tree = "t2"] :
             n \in {0, 64, 65, 73, 83, 84, 85, 87, 88, 89, 500, 1107, 1227} }

\* ------------------------------------------------------------- layout
\* every variant byte, at the lengths that matter to it
LayoutAtom(va, n) ==
    IF Kind(va) = "code" THEN [CodeShred(U32(66), U32(64), 2, 4, 1) EXCEPT !.va = va, !.body = "b" \o ToString(n), !.tree = "t" \o ToString(n)]
    ELSE [DataShred(U32(66), U32(64)) EXCEPT !.va = va, !.body = "b" \o ToString(n), !.tree = "t" \o ToString(n)]
LayoutPairs(va) ==
    LET a == LayoutAtom(va, 1)
        b == LayoutAtom(va, 2)
        lens == IF Merkle(va)
                THEN { n \in {-1, ProofStart(va), ProofEnd(va) - 20, ProofEnd(va) - 1, ProofEnd(va), ProofEnd(va) + 1,
                              PayloadLen(va) - 1} : n < PayloadLen(va) }
                ELSE {-1, 65, 100}
    IN { <<[a EXCEPT !.len = n], b>> : n \in lens } \cup { <<b, [a EXCEPT !.len = n]>> : n \in lens }
       \cup { <<a, [b EXCEPT !.tr = n]>> : n \in IF Merkle(va) THEN {0, 1, 25, 29, 37, 1000} ELSE {0} }
       \cup { <<a, LayoutAtom(134, 2)>>, <<LayoutAtom(70, 2), a>> }
       \cup IF Type(a) # "data" THEN {} ELSE
             { <<a, [b EXCEPT !.idx = U32(64 + d)]>> : d \in {0, 1, 3} }
             \cup { <<a, [b EXCEPT !.idx = U32(64 + (Pow2(k) - 1)), !.fec = U32(64)]>> : k \in {Proof(va)} }
             \cup { <<a, [b EXCEPT !.idx = U32(64 + Pow2(k)), !.fec = U32(64)]>> : k \in {Proof(va)} }

\* ---------------------------------------------------------------- bits
\* every bit of every header field
FlipInt(v, k) == IF (v \div Pow2(k)) % 2 = 1 THEN v - Pow2(k) ELSE v + Pow2(k)
FlipNum(v, k) == LET i == Len(v) - (k \div 16) IN [v EXCEPT ![i] = FlipInt(@, k % 16)]
Fieldbits(s) ==
    { <<"idx", k>> : k \in 0..31 } \cup { <<"fec", k>> : k \in 0..31 } \cup { <<"slot", k>> : k \in 0..63 }
    \cup { <<"ver", k>> : k \in 0..15 }
    \cup (IF IsData(s) THEN { <<"fl", k>> : k \in 0..7 } \cup { <<"par", k>> : k \in 0..15 }
          ELSE { <<f, k>> : f \in {"nd", "nc", "pos"}, k \in 0..15 })
FlipBit(s, fb) ==
    CASE fb[1] = "idx" -> [s EXCEPT !.idx = FlipNum(@, fb[2])]
      [] fb[1] = "fec" -> [s EXCEPT !.fec = FlipNum(@, fb[2])]
      [] fb[1] = "slot" -> [s EXCEPT !.slot = FlipNum(@, fb[2])]
      [] fb[1] = "ver" -> [s EXCEPT !.ver = FlipInt(@, fb[2])]
      [] fb[1] = "fl" -> [s EXCEPT !.fl = FlipInt(@, fb[2])]
      [] fb[1] = "par" -> [s EXCEPT !.par = FlipInt(@, fb[2])]
      [] fb[1] = "nd" -> [s EXCEPT !.nd = FlipInt(@, fb[2])]
      [] fb[1] = "nc" -> [s EXCEPT !.nc = FlipInt(@, fb[2])]
      [] fb[1] = "pos" -> [s EXCEPT !.pos = FlipInt(@, fb[2])]
BitBases ==
    { [DataShred(U32(66), U32(64)) EXCEPT !.va = 143], [DataShred(U32(66), U32(64)) EXCEPT !.va = 134],
      [DataShred(<<3, 64>>, <<3, 32>>) EXCEPT !.va = 185, !.fl = 128],
      [CodeShred(U32(66), U32(64), 2, 4, 1) EXCEPT !.va = 79],
      [CodeShred(<<2, 33>>, <<2, 32>>, 32, 32, 1) EXCEPT !.va = 102],
      [CodeShred(<<65535, 65535>>, <<65535, 65000>>, 300, 256, 7) EXCEPT !.va = 122] }
BitPairs(s) ==
    UNION { LET x == FlipBit(s, fb) IN
            { <<s, x>>, <<x, s>>, <<s, [x EXCEPT !.tree = "t2"]>>, <<[x EXCEPT !.tree = "t2"], s>>,
              <<x, [x EXCEPT !.body = "b2", !.tree = "t2"]>>,
              <<x, [s EXCEPT !.body = "b2", !.tree = "t2"]>> }
            \cup (IF IsData(s) /\ fb[1] \in {"idx", "fec"}
                  THEN LET y == FlipBit(FlipBit(s, <<"idx", fb[2]>>), <<"fec", fb[2]>>) IN
                       { <<y, [y EXCEPT !.body = "b2", !.tree = "t2"]>>, <<s, y>>, <<y, s>>,
                         <<[y EXCEPT !.fl = 192], [s EXCEPT !.tree = "t2"]>>, <<[s EXCEPT !.fl = 192], [y EXCEPT !.tree = "t2"]>> }
                  ELSE {})
            \cup (IF IsCode(s)
                  THEN { <<x, [DataShred(f.v, f.v) EXCEPT !.va = 134]>> :
                           f \in { f \in { RangeEnd(x), Sub(RangeEnd(x).v, U32(1)), Add(x.fec, U32(1)), [ok |-> TRUE, v |-> x.fec] } : f.ok } }
                  ELSE {})
          : fb \in Fieldbits(s) }
Pairs(s) == CASE s.k = "layout" -> LayoutPairs(s.va) [] s.k = "bits" -> BitPairs(s.base)

\* ------------------------------------------------------------- all of them
Seeds ==
    CASE Family = "grid"    -> [first : {s \in GridAtoms : s.tree = "t1"}]
      [] Family = "edge"    -> [first : EdgeSeeds]
      [] Family = "version" -> [first : VerData]
      [] Family = "slot"    -> [first : SlotData]
      [] Family = "variant" -> [first : UNION {VarFit(va) : va \in Variants}]
      [] Family = "content" -> [first : UNION {ContentVersions(Base(va)) : va \in ContentVas}]
      [] Family = "malformed" -> [first : MalAtoms]
      [] Family = "layout"  -> [first : { [k |-> "layout", va |-> va] : va \in 0..255 }]
      [] Family = "bits"    -> [first : { [k |-> "bits", base |-> b] : b \in BitBases }]
Partners(a) ==
    CASE Family = "grid"    -> GridAtoms
      [] Family = "edge"    -> EdgeAtoms
      [] Family = "version" -> VerData
      [] Family = "slot"    -> SlotData
      [] Family = "variant" ->
           UNION {IF (a.va + 3 * vb) % (IF Deep THEN 4 ELSE 16) # 0 THEN {}
                  ELSE {s \in VarFit(vb) : (VarSum(s) + VarSum(a) + vb) % (IF Deep THEN 4 ELSE 12) = 0}
                    : vb \in Variants}
      [] Family = "content" -> {s \in ContentVersions(Base(a.va)) :
                                  Deep \/ a.len < 0 \/ s.len < 0}
      [] Family = "malformed" -> MalAtoms

\* in the slot family the reported slot varies too
Report(a, b) ==
    CASE Family = "slot" ->
           { LET s == Std(a, b) IN
             [s EXCEPT !.slot = sl, !.env.slot = [SlotBase EXCEPT ![1] = 600],
                       !.env.spe = <<65535, 0, 0, 0>>,
                       !.acc = StdAcc(PDA(K("N1"), sl))]
               : sl \in IF Deep THEN SlotVals ELSE {SlotBase, a.slot} }
      [] OTHER -> { Std(a, b) }

\* ... about the slot of the first shred
Bound(a, b) ==
    LET s == Std(a, b) IN
    { [s EXCEPT !.slot = sl, !.env.slot = <<65535, 65535, 65535, 65535>>, !.env.spe = <<65535, 65535, 65535, 65535>>,
                !.acc = StdAcc(PDA(K("N1"), sl))] : sl \in {a.slot} }
Pair(a, b) == Consistent(a, b) /\ (Family \in {"version", "slot"} => a.body = "b1")
Init == c \in Seeds
Next == "first" \in DOMAIN c /\
        IF Family \in {"layout", "bits"}
        THEN \E p \in Pairs(c.first) : Consistent(p[1], p[2]) /\ c' \in Bound(p[1], p[2])
        ELSE \E b \in Partners(c.first) : Pair(c.first, b) /\ c' \in Report(c.first, b)
Sane == IsCase(c) => RulesSane(c)
\* the rules over integers without bounds, about which Blocks proves theorems, are these
Unbounded == INSTANCE Rules
Fits(s) == Merkle(s.va) /\ WellFormed(s) /\ s.idx[1] < 16384 /\ s.fec[1] < 16384
View(s) == [code |-> IsCode(s), idx |-> ToInt(s.idx), fec |-> ToInt(s.fec), last |-> IsLast(s), root |-> Root(s), content |-> Content(s)]
           @@ (IF IsCode(s) THEN [nd |-> s.nd, nc |-> s.nc, pos |-> s.pos] ELSE [nd |-> 0, nc |-> 0, pos |-> 0])
Agree == IsCase(c) /\ Fits(c.a) /\ Fits(c.b) => ((Conflicts(c.a, c.b) # {}) = Unbounded!RConflict(View(c.a), View(c.b)))
Send == IsCase(c) => Out(Family, c)
=============================================================================
