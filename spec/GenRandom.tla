------------------------------ MODULE GenRandom ------------------------------
(* Random submissions: what the enumerated families vary one or
   two at a time, all at once, over full-range numbers.

     pairs    a shred with random fields, and a second one made from it by
              drawing some of its fields again, near, far or at an edge
     submits  such a pair, mostly a conflicting one, in a submission with up to
              four of its parts drawn at random                              *)
EXTENDS Emit, Dice
CONSTANTS Family, Count
VARIABLE c

DataVas == Asc({va \in Variants : Kind(va) = "data"})
CodeVas == Asc({va \in Variants : Kind(va) = "code"})

Trees == <<"t1", "t2", "t3">>
\* ------------------------------------------------------------------ shreds
RndData(t, i) ==                                                                     \* 18
    LET va == One(t, i, DataVas)
        f == Rnd32(t, i + 1)
        d == Upto(t, i + 6, Pow2(Proof(va)) - 1)
    IN [DataShred(IF Die(t, i + 7, 12) = 1 THEN Rnd32(t, i + 8) ELSE Clip(Add(f, U32(IF Die(t, i + 13, 2) = 1 THEN d ELSE d % 4)), f), f)
          EXCEPT !.va = va, !.fl = IF Die(t, i + 14, 3) = 1 THEN Upto(t, i + 15, 255) ELSE One(t, i + 15, <<0, 64, 128, 192>>),
                 !.par = Limb(t, i + 16), !.tree = "t1"]
RndCode(t, i) ==                                                                     \* 24
    LET va == One(t, i, CodeVas)
        n == Pow2(Proof(va))
        nd == IF Die(t, i + 1, 12) = 1 THEN Limb(t, i + 2) ELSE Upto(t, i + 2, n - 1)
        p == IF Die(t, i + 4, 12) = 1 \/ nd >= n THEN Limb(t, i + 5) ELSE Upto(t, i + 5, n - 1 - nd)
        f == Rnd32(t, i + 7)
    IN [CodeShred(IF Die(t, i + 12, 12) = 1 THEN Rnd32(t, i + 13) ELSE Clip(Add(f, U32(p + Upto(t, i + 18, 3))), f), f, nd,
                  IF Die(t, i + 19, 2) = 1 THEN Limb(t, i + 20) ELSE Die(t, i + 20, 64), p) EXCEPT !.va = va, !.tree = "t1"]
RndShred(t, i) == IF t[i] % 2 = 0 THEN RndData(t, i + 1) ELSE RndCode(t, i + 1)      \* 25
\* draw one thing again; takes 10
Redraw(s, t, i) ==
    LET k == Die(t, i, 16) IN
    CASE k = 1 -> [s EXCEPT !.idx = IF Die(t, i + 1, 5) = 1 THEN Rnd32(t, i + 2) ELSE Near(t, i + 2, s.idx, IF Die(t, i + 4, 2) = 1 THEN 2 ELSE 64)]
      [] k = 2 -> [s EXCEPT !.fec = IF Die(t, i + 1, 5) = 1 THEN Rnd32(t, i + 2) ELSE Near(t, i + 2, s.fec, IF Die(t, i + 4, 2) = 1 THEN 2 ELSE 64)]
      [] k = 3 -> LET d == U32(Upto(t, i + 1, 64)) IN [s EXCEPT !.fec = SatAdd(@, d), !.idx = SatAdd(@, d)]
      [] k = 4 -> IF IsData(s) THEN [s EXCEPT !.fl = One(t, i + 1, <<0, 64, 128, 192, 255>>)]
                  ELSE [s EXCEPT !.nd = Near16(t, i + 1, @, 2)]
      [] k = 5 -> IF IsData(s) THEN [s EXCEPT !.par = Limb(t, i + 1)] ELSE [s EXCEPT !.nc = Near16(t, i + 1, @, 2)]
      [] k = 6 -> IF IsData(s) THEN s
                  ELSE LET d == Upto(t, i + 1, 3) IN [s EXCEPT !.pos = (@ + d) % 65536, !.idx = SatAdd(@, U32(IF Die(t, i + 2, 2) = 1 THEN d ELSE 0))]
      [] k = 7 -> [s EXCEPT !.body = "b2"]
      [] k = 8 -> [s EXCEPT !.tree = One(t, i + 1, Trees)]
      [] k = 9 -> [s EXCEPT !.tree = "t2", !.body = "b2"]
      [] k = 10 -> [s EXCEPT !.tr = One(t, i + 1, <<0, 1, 25, 64, 300>>), !.rs = One(t, i + 2, <<"r1", "r2">>)]
      [] k = 11 -> IF Die(t, i + 1, 3) = 1 THEN [s EXCEPT !.len = Upto(t, i + 2, PayloadLen(s.va))] ELSE s
      [] k = 12 -> \* a shred of the other type, in the same set or about its end
           IF IsData(s) THEN LET n == Upto(t, i + 1, 4) IN
               [CodeShred(SatAdd(s.fec, U32(n)), IF Die(t, i + 2, 2) = 1 THEN s.fec ELSE Near(t, i + 3, s.fec, 3), Upto(t, i + 5, 5), Die(t, i + 6, 5), n)
                  EXCEPT !.va = One(t, i + 7, SelectSeq(CodeVas, LAMBDA va : Proof(va) = Proof(s.va))), !.tree = One(t, i + 8, Trees),
                         !.slot = s.slot, !.ver = s.ver]
           ELSE LET f == One(t, i + 1, << s.fec, SatAdd(s.fec, U32(1)), SatAdd(s.fec, U32(s.nd)), SatAdd(s.fec, U32(s.nd + 1)),
                                          Clip(Sub(SatAdd(s.fec, U32(s.nd)), U32(1)), s.fec), SatAdd(s.fec, U32(s.nc)) >>) IN
               [DataShred(SatAdd(f, U32(Upto(t, i + 2, 3))), f)
                  EXCEPT !.va = One(t, i + 3, SelectSeq(DataVas, LAMBDA va : Proof(va) = Proof(s.va))), !.tree = One(t, i + 4, Trees),
                         !.slot = s.slot, !.ver = s.ver, !.fl = One(t, i + 5, <<0, 192>>)]
      [] k = 13 -> IF Die(t, i + 1, 4) = 1 THEN [s EXCEPT !.ver = Limb(t, i + 2)] ELSE s
      [] k = 14 -> IF Die(t, i + 1, 4) = 1 THEN [s EXCEPT !.slot = Near(t, i + 2, @, 1)] ELSE s
      [] k = 15 -> [s EXCEPT !.va = One(t, i + 1, IF IsData(s) THEN DataVas ELSE CodeVas)]
      [] k = 16 -> LET va == Upto(t, i + 2, 255) IN
           IF Die(t, i + 1, 4) = 1 /\ (Merkle(va) => Kind(va) = Kind(s.va)) THEN [s EXCEPT !.va = va, !.tr = IF Merkle(va) THEN @ ELSE 0] ELSE s
RECURSIVE Redrawn(_, _, _, _)
Redrawn(s, n, t, i) == IF n = 0 \/ ~Merkle(s.va) THEN s ELSE Redrawn(Redraw(s, t, i), n - 1, t, i + 10)
\* one that can be told apart by its tree, if it has to be
Apart(a, b) == IF Consistent(a, b) THEN b ELSE [b EXCEPT !.tree = "t4", !.body = "b4"]
PairOf(t) ==
    LET a == [RndShred(t, 1) EXCEPT !.ver = Limb(t, 27), !.slot = IF t[29] % 2 = 0 THEN Rnd64(t, 30) ELSE U64(1000)]
        ab == <<a, Apart(a, Redrawn(a, Die(t, 40, 4), t, 50))>>
    IN IF t[41] % 2 = 0 THEN ab ELSE <<ab[2], ab[1]>>

\* -------------------------------------------------------------- submissions
\* about the slot of the first shred, just in time
Now(s, x) == [s EXCEPT !.slot = x, !.env.slot = SatAdd(x, U64(100)), !.acc = StdAcc(PDA(s.node, x))]
PairCase(p) == Now(Std(p[1], p[2]), p[1].slot)

\* a pair that conflicts
GoodPair(t) ==                                                                      \* 1..50
    LET a == [RndData(t, 2) EXCEPT !.slot = Rnd64(t, 30), !.ver = Limb(t, 40)]
        k == [RndCode(t, 2) EXCEPT !.slot = Rnd64(t, 30), !.ver = Limb(t, 40)]
        n == Die(t, 1, 4)
    IN CASE n = 1 -> <<a, [a EXCEPT !.body = "b2", !.tree = "t2"]>>
         [] n = 2 -> <<k, [k EXCEPT !.nc = Near16(t, 42, @, 3), !.tree = "t2"]>>
         [] n = 3 -> <<[a EXCEPT !.fl = 192], [a EXCEPT !.idx = SatAdd(@, U32(1)), !.fec = SatAdd(@, U32(1)), !.tree = "t2"]>>
         [] n = 4 -> <<a, [a EXCEPT !.fec = Near(t, 42, @, 1), !.tree = "t2"]>>
\* bend one part; takes 12
Bend(r, k, t, i) ==
    CASE k = 1 -> LET spe == Rnd64(t, i) IN [r EXCEPT !.env.spe = spe, !.env.slot = Near(t, i + 9, SatAdd(r.slot, spe), 2)]
      [] k = 2 -> LET spe == Rnd64(t, i) IN [r EXCEPT !.env.spe = spe, !.env.slot = Near(t, i + 9, SatAdd(r.slot, spe), 1)]
      [] k = 3 -> [r EXCEPT !.env.slot = IF Die(t, i, 2) = 1 THEN Rnd64(t, i + 1) ELSE Near(t, i + 1, r.slot, 2)]
      [] k = 4 -> [r EXCEPT !.env.epoch = Rnd64(t, i)]
      [] k = 5 -> LET n == Upto(t, i, 400) IN [r EXCEPT !.buf.pre = n, !.off = U64(n)]
      [] k = 6 -> [r EXCEPT !.buf.post = Upto(t, i, 3000)]
      [] k = 7 -> [r EXCEPT !.buf.cut = IF Die(t, i, 2) = 1 THEN Upto(t, i + 1, 2600) ELSE BufLen(r)]
      [] k = 8 -> LET m == RentOf(r, StoredLen(r))
                      f == One(t, i, <<m, m + 1, m - 1, m + t[i + 1], m - t[i + 1], m + 1000 * t[i + 1]>>)
                  IN [r EXCEPT !.fund = IF f < 1 THEN 1 ELSE f]
      [] k = 9 -> [r EXCEPT !.env.rate = Upto(t, i, 5000), !.env.thr = Die(t, i + 1, 3)]
      [] k = 10 -> LET kk == K(One(t, i, <<"N1", "N2", "R">>)) IN [r EXCEPT !.node = kk, !.acc[2][1] = PDA(kk, r.slot)]
      [] k = 11 -> [r EXCEPT !.a.by = One(t, i, <<"N1", "N2">>), !.b.by = One(t, i + 1, <<"N1", "N2">>)]
      [] k = 12 -> [r EXCEPT !.rep = One(t, i, <<K("R"), K("D"), K("X"), r.node, r.dst>>)]
      [] k = 13 -> [r EXCEPT !.dst = One(t, i, <<K("R"), K("D"), K("X"), r.node, PdaOf(r), K("system"), PDA(K("N2"), r.slot)>>)]
      [] k = 14 -> LET x == [r EXCEPT !.lead = One(t, i, <<"bare", "far", "std", "gap", "after", "none">>)] IN [x EXCEPT !.ed.es = StdEntries(SubIndex(x))]
      [] k = 15 -> [r EXCEPT !.ed.es = StdEntries(SubIndex(r))]
      [] k = 16 -> IF Len(r.ed.es) = 0 THEN r
                   ELSE LET j == Die(t, i, Len(r.ed.es))
                            f == One(t, i + 1, <<"so", "ko", "mo", "ml", "si", "ki", "mi">>)
                            g == One(t, i + 3, Asc({Field[x].at : x \in DOMAIN Field}))
                        IN [r EXCEPT !.ed.es[j][f] = IF Die(t, i + 2, 3) = 1 THEN g ELSE IF Die(t, i + 2, 2) = 1 THEN Near16(t, i + 3, @, 2) ELSE One(t, i + 3, <<0, 1, 2, 3, 65535, t[i + 4]>>)]
      [] k = 17 -> [r EXCEPT !.ed.c0 = Upto(t, i, 3), !.ed.c1 = IF Die(t, i + 1, 2) = 1 THEN 0 ELSE Upto(t, i + 2, 255)]
      [] k = 18 -> [r EXCEPT !.ed.es = SubSeq(@, 1, Upto(t, i, Len(@)))]
      [] k = 19 -> [r EXCEPT !.r1 = One(t, i, <<"a", "b">>), !.s1 = One(t, i + 1, <<"a", "b">>)]
      [] k = 20 -> [r EXCEPT !.r2 = One(t, i, <<"a", "b">>), !.s2 = One(t, i + 1, <<"a", "b">>)]
      [] k = 21 -> [r EXCEPT !.old = "report"]
      [] k = 22 -> LET sl == Near(t, i, r.slot, 1) IN [r EXCEPT !.slot = sl, !.acc[2][1] = PDA(r.node, IF Die(t, i + 2, 2) = 1 THEN sl ELSE r.slot)]
      [] k = 23 -> [r EXCEPT !.off = Rnd64(t, i)]
      [] k = 24 -> [r EXCEPT !.tag = Upto(t, i, 255)]
      [] k = 25 -> [r EXCEPT !.cut = Upto(t, i, 605) - 305]
      [] k = 26 -> [r EXCEPT !.acc[3] = <<One(t, i, <<K("ixsysvar"), K("clock"), K("proof"), K("system")>>), "r">>]
      [] k = 27 -> IF Len(r.acc) < 4 THEN r ELSE [r EXCEPT !.acc[4] = <<One(t, i, <<K("ixsysvar"), K("system"), K("R")>>), "r">>]
      [] k = 28 -> IF Len(r.acc) < 4 THEN r ELSE [r EXCEPT !.acc = SubSeq(@, 1, 2 + Die(t, i, 2))]
      [] k = 29 -> [r EXCEPT !.env.sch = One(t, i, <<"flat", "warmup", "never">>)]
      [] k = 30 -> IF Merkle(r.a.va) THEN [r EXCEPT !.a = Apart(r.b, Redraw(@, t, i))] ELSE r
      [] k = 31 -> IF Merkle(r.b.va) THEN [r EXCEPT !.b = Apart(r.a, Redraw(@, t, i))] ELSE r
      [] k = 32 -> [r EXCEPT !.buf.l1 = One(t, i, <<-1, 1, t[i + 1]>>)]
      [] k = 33 -> [r EXCEPT !.buf.l2 = One(t, i, <<-1, 1, 7, t[i + 1]>>)]
      [] k = 34 -> LET a == r.a @@ [cp |-> "b"]
                       b == r.b @@ [cp |-> "a"]
                   IN One(t, i, << [r EXCEPT !.a = a], [r EXCEPT !.b = b], [r EXCEPT !.a = a, !.s1 = "b"], [r EXCEPT !.b = b, !.r2 = "a"],
                                   [r EXCEPT !.a = a, !.r1 = "b"], [r EXCEPT !.a = a, !.b = b, !.r1 = "b", !.r2 = "a"] >>)
\* these leave a submission valid
Harmless == << 4, 5, 6, 8, 9, 12, 14, 15, 29 >>
RECURSIVE Bends(_, _, _, _, _)
Bends(r, n, m, t, i) ==
    IF n > 0 THEN Bends(Bend(r, One(t, i, Harmless), t, i + 1), n - 1, m, t, i + 13)
    ELSE IF m > 0 THEN Bends(Bend(r, Die(t, i, 34), t, i + 1), 0, m - 1, t, i + 13)
    ELSE r
SubmitCase(t) ==
    LET r == Bends(PairCase(GoodPair(t)), Die(t, 51, 4), Upto(t, 52, 3), t, 60)
    IN IF t[53] % 3 # 0 THEN [r EXCEPT !.ed.es = StdEntries(SubIndex(r))] ELSE r
CaseOf(t) == IF Family = "pairs" THEN PairCase(PairOf(t)) ELSE SubmitCase(t)

Init == c \in { [first |-> n] : n \in 1..Count }
Next == "first" \in DOMAIN c /\ \E t \in {Tape(c.first)} : c' = CaseOf(t)
Fair(x) == Consistent(x.a, x.b)
Sane == (IsCase(c) /\ Fair(c)) => RulesSane(c)
Send == (IsCase(c) /\ Fair(c)) => Out(IF Family = "pairs" THEN "randpairs" ELSE "random", c)
=============================================================================
