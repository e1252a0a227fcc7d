------------------------------ MODULE GenSubmit ------------------------------
(* Submissions around a conflicting pair: signatures (C03), time (C04), proof
   buffer (C14), instruction data and accounts (C17), funding and address (C07,
   C08), and combinations of faults (C18). *)
EXTENDS Emit
CONSTANTS Family, Deep
VARIABLE c

\* ------------------------------------------------------------ base pairs
C1 == CodeShred(U32(66), U32(64), 2, 4, 1)
C2 == [CodeShred(U32(67), U32(64), 3, 4, 1) EXCEPT !.tree = "t1"]
Merkle2 == Std(P1, P2)
Same    == Std(P1, P1)
Erasure == Std(C1, C2)
Last    == Std([P1 EXCEPT !.fl = 192], [P1 EXCEPT !.idx = U32(70), !.fec = U32(68), !.tree = "t3"])
\* two shreds of one set, hence with one root
OneSet == Std([P1 EXCEPT !.fl = 192], [P1 EXCEPT !.idx = U32(67)])
Resig2 == Std([P1 EXCEPT !.va = 182], [P2 EXCEPT !.va = 182])
Bases == {Merkle2, Erasure, Last, Resig2}

Fields(r, s) == [x \in DOMAIN r |-> IF x \in DOMAIN s THEN s[x] ELSE r[x]]

\* ------------------------------------------------------------- signatures
Leads == {"std", "bare", "none", "gap", "after", "proxy", "far"}
Idx(lead, loc) ==
    CASE loc = "sub"  -> SubIndex([lead |-> lead])
      [] loc = "own"  -> EdIndex([lead |-> lead])
      [] loc = "self" -> 65535
      [] loc = "aux"  -> 0
      [] loc = "next" -> SubIndex([lead |-> lead]) + 1
\* entry number k of n reading message m and signature s at place loc
Ent(lead, n, loc, m, s) ==
    LET base == IF loc \in {"own", "self"} THEN 2 + 14 * n ELSE 0
        i == Idx(lead, loc)
    IN [si |-> i, ki |-> i, mi |-> i, so |-> base + Field[s].at,
        ko |-> base + Field["node"].at, mo |-> base + Field[m].at, ml |-> 32]
EntryKinds(lead, n) ==
    { Ent(lead, n, loc, p[1], p[2]) :
        loc \in IF Deep THEN {"sub", "own", "self", "aux", "next"} ELSE {"sub", "self", "aux"},
        p \in {<<"root1", "sig1">>, <<"root2", "sig2">>} }
    \cup { Ent(lead, n, "sub", "root1", "sig2") }
\* a standard entry bent in one place
Bent(lead, n) ==
    LET e == Ent(lead, n, "sub", "root1", "sig1")
        self == Ent(lead, n, "self", "root1", "sig1")
    IN { [e EXCEPT !.ml = k] : k \in {0, 31, 33, 64} }
       \cup { [e EXCEPT !.so = k] : k \in {144, 146, 241, 242, 305, 65535} }
       \cup { [e EXCEPT !.ko = k] : k \in {0, 16, 18, 49, 81, 274, 65535} }
       \cup { [e EXCEPT !.mo = k] : k \in {112, 114, 209, 274, 65535} }
       \cup { [e EXCEPT !.si = self.si, !.so = self.so], [e EXCEPT !.ki = self.ki, !.ko = self.ko],
              [e EXCEPT !.mi = self.mi, !.mo = self.mo] }

Img(c0) == [has |-> TRUE, node |-> c0.node, rep |-> c0.rep, dst |-> c0.dst, r1 |-> c0.r1, s1 |-> c0.s1, r2 |-> c0.r2, s2 |-> c0.s2]
WithEd(b, lead, c0, c1, es) == [b EXCEPT !.lead = lead, !.ed.c0 = c0, !.ed.c1 = c1, !.ed.es = es]

\* which places besides the submission hold a genuine image
Copies(b) == { [own |-> o, aux |-> x] : o \in {NoImg, Img(b)}, x \in {NoImg, Img(b)} }
\* arrangements of entries, counts, places
Arranged ==
    LET leads == Leads \ {"none"} IN
    UNION {
      { [k |-> "arr", lead |-> l, c0 |-> k0, c1 |-> k1, n |-> n] :
          k0 \in 0..3, k1 \in {0, 1}, n \in 0..3 } : l \in leads }
ArrangedCases(s) ==
    LET b == Merkle2
        n == s.n
        l == s.lead
        E == EntryKinds(l, n)
        lists == CASE n = 0 -> {<<>>}
                   [] n = 1 -> { <<e>> : e \in E }
                   [] n = 2 -> { <<e, f>> : e \in E, f \in E }
                               \cup { <<e, Ent(l, 2, "sub", "root2", "sig2")>> : e \in Bent(l, 2) }
                               \cup { <<Ent(l, 2, "sub", "root2", "sig2"), e>> : e \in Bent(l, 2) }
                   [] n = 3 -> { <<Ent(l, 3, "sub", "root1", "sig1"), Ent(l, 3, "sub", "root2", "sig2"), e>> :
                                   e \in E }
                               \cup { <<e, Ent(l, 3, "sub", "root1", "sig1"), Ent(l, 3, "sub", "root2", "sig2")>> :
                                   e \in E }
    IN { [WithEd(b, l, s.c0, s.c1, es) EXCEPT !.own = Img(b), !.aux = Img(b), !.outer = Img(b)] : es \in lists }

\* whose signatures, over what, against which accused
Who == {"N1", "N2"}
Claims == [k : {"claim"}, base : {"two", "one"}, ba : Who, bb : Who, bx : Who, node : Who,
           r1 : {"a", "b", "x"}, s1 : {"a", "b", "x"}, r2 : {"a", "b", "x"}, s2 : {"a", "b", "x"}]
GoodClaim(s) ==
    \* leave out the dull part: most fields scrambled at once
    LET d == (IF s.r1 = "a" THEN 0 ELSE 1) + (IF s.s1 = "a" THEN 0 ELSE 1)
             + (IF s.r2 = "b" THEN 0 ELSE 1) + (IF s.s2 = "b" THEN 0 ELSE 1)
    IN d <= (IF Deep THEN 4 ELSE 2)
ClaimCases(s) ==
    LET b == [(IF s.base = "two" THEN Merkle2 ELSE OneSet) EXCEPT !.a.by = s.ba, !.b.by = s.bb,
                !.x = [P1 EXCEPT !.by = s.bx, !.tree = IF s.base = "two" THEN "t1" ELSE "t2"], !.node = K(s.node),
                !.acc = StdAcc(PDA(K(s.node), U64(1000))),
                !.r1 = s.r1, !.s1 = s.s1, !.r2 = s.r2, !.s2 = s.s2]
        two(m1, g1, m2, g2) == << Ent("std", 2, "sub", m1, g1), Ent("std", 2, "sub", m2, g2) >>
    IN { WithEd(b, "std", k, 0, es) :
           k \in {2}, es \in { two("root1", "sig1", "root2", "sig2"), two("root1", "sig1", "root1", "sig1"),
                               two("root2", "sig2", "root2", "sig2"), two("root2", "sig2", "root1", "sig1") } }
       \cup { WithEd(b, "std", 1, k, two("root1", "sig1", "root2", "sig2")) : k \in {0, 1, 2, 255} }

\* the key each signature is verified under, read from any of the submission's key fields
KeySeeds == [k : {"keys"}, base : {"two", "one"}, ba : Who, bb : Who, node : Who, rep : Who, dst : Who]
KeyCases(s) ==
    LET b == [(IF s.base = "two" THEN Merkle2 ELSE OneSet) EXCEPT !.a.by = s.ba, !.b.by = s.bb, !.node = K(s.node),
                !.rep = K(s.rep), !.dst = K(s.dst), !.acc = StdAcc(PDA(K(s.node), U64(1000)))]
        ent(l, m, g, f) == [Ent(l, 2, "sub", m, g) EXCEPT !.ko = Field[f].at]
        fs == {"node", "reporter", "dest"}
    IN { WithEd(b, l, 2, 0, << ent(l, "root1", "sig1", f), ent(l, "root2", "sig2", g) >>) : l \in {"std", "bare"}, f \in fs, g \in fs }

\* genuine signatures of messages that are not whole roots
PartSeeds == [k : {"parts"}, base : {"two", "one"}, n1 : {0, 1, 20, 31, 32, 64}, n2 : {0, 1, 20, 31, 32, 64}]
PartCases(s) ==
    LET b == IF s.base = "two" THEN Merkle2 ELSE OneSet
        sh(x, n) == IF n < 32 THEN x @@ [sc |-> n] ELSE x
        ent(l, n, m, g) == IF n = 64 THEN [Ent(l, 2, "sub", m, g) EXCEPT !.mo = LongAt, !.ml = LongLen] ELSE [Ent(l, 2, "sub", m, g) EXCEPT !.ml = n]
        nm(n, x) == IF n = 64 THEN "long" ELSE x
    IN { WithEd([b EXCEPT !.a = sh(b.a, s.n1), !.b = sh(b.b, s.n2), !.s1 = nm(s.n1, "a"), !.s2 = nm(s.n2, "b")], l, 2, 0,
                << ent(l, m1, "root1", "sig1"), ent(l, m2, "root2", "sig2") >>) :
           l \in {"std", "bare"}, m1 \in {s.n1, 32}, m2 \in {s.n2, 32} }

\* a shred signed not by its root but by a longer message that begins with it
LongSeeds == [k : {"long"}, base : {"two", "one"}, w : {"a", "b"}, f : {"reporter", "dest"}, n : {33, 34, 48, 63, 64}]
LongCases(s) ==
    LET b == IF s.base = "two" THEN Merkle2 ELSE OneSet
        at == Field[s.f].at
        to(x, n) == IF n = s.w THEN x @@ [lm |-> [at |-> at, n |-> s.n]] ELSE x
        d == [(IF s.f = "dest" THEN [b EXCEPT !.dst = <<"rootof", s.w>>] ELSE [b EXCEPT !.rep = <<"rootof", s.w>>])
                EXCEPT !.a = to(b.a, "a"), !.b = to(b.b, "b")]
        ent(l, n, m, g, len) == IF n = s.w THEN [Ent(l, 2, "sub", m, g) EXCEPT !.mo = at, !.ml = len] ELSE Ent(l, 2, "sub", m, g)
    IN { WithEd(d, l, 2, 0, << ent(l, "a", "root1", "sig1", len), ent(l, "b", "root2", "sig2", len) >>) : l \in {"std", "bare"}, len \in {32, s.n} }

\* shreds that carry the signature of another
CopySeeds == [k : {"copies"}, base : {"two", "one"}, ca : {"-", "b", "x"}, cb : {"-", "a", "x"}, bx : Who]
CopyCases(s) ==
    LET b == IF s.base = "two" THEN Merkle2 ELSE OneSet
        cp(x, n) == IF n = "-" THEN x ELSE x @@ [cp |-> n]
        d == [b EXCEPT !.a = cp(b.a, s.ca), !.b = cp(b.b, s.cb),
                !.x = [P1 EXCEPT !.by = s.bx, !.body = "b9", !.idx = U32(68), !.tree = "t9"]]
        sh == {"a", "b", "x"}
        two(m1, g1, m2, g2) == << Ent("std", 2, "sub", m1, g1), Ent("std", 2, "sub", m2, g2) >>
    IN { WithEd([d EXCEPT !.r1 = r1, !.s1 = s1, !.r2 = r2, !.s2 = s2], "std", 2, 0, es) :
           r1 \in sh, s1 \in sh, r2 \in sh, s2 \in sh, es \in { two("root1", "sig1", "root2", "sig2"), two("root1", "sig1", "root1", "sig1") } }

\* signed messages that are almost the root, signatures that are almost those verified
NearSeeds == [k : {"near"}, base : {"two", "one"}, n : 0..63]
NearCases(s) ==
    LET b == [(IF s.base = "two" THEN Merkle2 ELSE OneSet) EXCEPT !.lead = "std", !.x = <<>>]
        near(x) == x @@ [sn |-> s.n]
        bad(x) == x @@ [sx |-> s.n]
    IN (IF s.n > 31 THEN {} ELSE
        { [b EXCEPT !.a = near(b.a)] @@ [f1 |-> s.n], [b EXCEPT !.b = near(b.b)] @@ [f2 |-> s.n],
          [b EXCEPT !.a = near(b.a)], [b EXCEPT !.b = near(b.b)], b @@ [f1 |-> s.n], b @@ [f2 |-> s.n],
          [b EXCEPT !.a = near(b.a), !.b = near(b.b)] @@ [f1 |-> s.n, f2 |-> s.n] })
       \cup { [b EXCEPT !.a = bad(b.a)], [b EXCEPT !.b = bad(b.b)],
              [b EXCEPT !.a = bad(b.a), !.x = b.a, !.s1 = "x"], [b EXCEPT !.b = bad(b.b), !.x = b.b, !.s2 = "x"],
              [b EXCEPT !.a = bad(b.a), !.b = bad(b.b), !.x = b.a, !.s1 = "x"] }

\* forged evidence, a genuine image at the calling program, and the other way
ProxyCases ==
    UNION {
      { LET b == [Merkle2 EXCEPT !.a.by = s.ba, !.b.by = s.bb,
                    !.x = [P1 EXCEPT !.by = s.bx, !.tree = s.tx], !.node = K(s.node),
                    !.acc = StdAcc(PDA(K(s.node), U64(1000))), !.lead = "proxy"]
            im == [has |-> TRUE, node |-> K(s.onode), rep |-> b.rep, dst |-> b.dst, r1 |-> s.r1, s1 |-> s.r1, r2 |-> s.r2, s2 |-> s.r2]
        IN [b EXCEPT !.outer = im] :
          s \in [ba : Who, bb : Who, bx : Who, node : Who, onode : Who, tx : {"t1", "t9"},
                 r1 : {"a", "x"}, r2 : {"b", "x"}] } }

\* the entries read (in whole or in part) elsewhere than in the submission, at
\* the places where the submission has its fields
OverSeeds == [k : {"over"}, by : Who, node : Who, rep : Who, onode : Who, orep : Who, lead : {"std", "bare"},
              ko : {"node", "reporter", "dest"}]
OverCases(s) ==
    LET b == [Merkle2 EXCEPT !.a.by = s.by, !.b.by = s.by, !.node = K(s.node), !.rep = K(s.rep), !.dst = K(s.rep),
                !.acc = StdAcc(PDA(K(s.node), U64(1000)))]
        im == [Img(b) EXCEPT !.node = K(s.onode), !.rep = K(s.orep), !.dst = K(s.orep)]
        locs == {"sub", "self", "own", "aux"}
        ent(m, g, l) == LET x(loc) == Idx(s.lead, loc)
                        IN [si |-> x(l[1]), ki |-> x(l[2]), mi |-> x(l[3]), so |-> Field[g].at,
                            ko |-> Field[s.ko].at, mo |-> Field[m].at, ml |-> 32]
    IN { [WithEd(b, s.lead, 2, 0, << ent("root1", "sig1", l), ent("root2", "sig2", l) >>)
            EXCEPT !.own = im, !.over = TRUE, !.aux = IF s.lead = "bare" THEN NoImg ELSE im] :
           l \in locs \X locs \X locs }

\* ------------------------------------------------------------- time window
U64s == { U64(0), U64(1), U64(1000), <<0, 1, 0, 0>>, <<0, 1, 0, 7>>, <<127, 65535, 65535, 65535>>,
          <<32768, 0, 0, 0>>, <<65535, 65535, 65535, 65534>>, <<65535, 65535, 65535, 65535>> }
Spes == { U64(0), U64(1), U64(32), <<0, 0, 6, 38784>>, <<0, 1, 0, 5>>, <<65535, 65535, 65535, 65535>> }
WindowSeeds == [k : {"window"}, slot : U64s, spe : Spes, sch : {"flat", "warmup", "never"}]
WindowCases(s) ==
    LET a == [P1 EXCEPT !.slot = s.slot]
        b == [P2 EXCEPT !.slot = s.slot]
        near(x, d) == { y.v : y \in { y \in { Add(x, d), Add(x, SatAdd(d, U64(1))), Sub(x, U64(1)) } : y.ok } }
        clocks == near(s.slot, U64(0)) \cup near(s.slot, s.spe)
                  \cup { y.v : y \in { y \in {Add(s.slot, Sub(s.spe, U64(1)).v)} : y.ok /\ s.spe # U64(0) } }
                  \cup { y.v : y \in { y \in {Sub(s.slot, s.spe), Add(s.slot, <<0, 1, 0, 0>>)} : y.ok } }
                  \cup { U64(0), <<65535, 65535, 65535, 65535>> }
    IN { [Std(a, b) EXCEPT !.slot = s.slot, !.acc = StdAcc(PDA(K("N1"), s.slot)),
             !.env.slot = now, !.env.spe = s.spe, !.env.epoch = e, !.env.sch = s.sch] :
           now \in clocks, e \in {U64(9), <<65535, 65535, 65535, 65535>>} }

\* ------------------------------------------------------------ proof buffer
BufferSeeds == [k : {"buffer"}, base : {Merkle2, Erasure, Resig2},
                pre : {0, 1, 4, 7, 33}, post : {0, 1, 100}]
               \cup [k : {"buffer"}, base : {Merkle2}, pre : {255, 256, 65535, 65536, 70001}, post : {0, 3}]
BufferCases(s) ==
    LET b == [s.base EXCEPT !.buf.pre = s.pre, !.buf.post = s.post, !.off = U64(s.pre)]
        la == Length(b.a)
        lb == Length(b.b)
        at(n) == [b EXCEPT !.buf.cut = s.pre + n]
        offs == { n \in { s.pre - 1, s.pre + 1, 0, s.pre + 4, s.pre + 4 + la, s.pre + 8 + la + lb,
                          s.pre + 8 + la + lb + s.post - 8, s.pre + 8 + la + lb + s.post - 1,
                          s.pre + 8 + la + lb + s.post, s.pre + 8 + la + lb + s.post + 1, 65536 } : n >= 0 }
    IN {b}
       \cup { at(n) : n \in {0, 1, 3, 4, 5, 3 + la, 4 + la, 5 + la, 7 + la, 8 + la, 9 + la,
                             7 + la + lb, 8 + la + lb, 9 + la + lb} }
       \cup { [b EXCEPT !.off = U64(n)] : n \in offs }
       \cup { [b EXCEPT !.off = v] : v \in {<<65535, 65535, 65535, 65535>>, <<32768, 0, 0, 0>>}
                                              \cup { Add(U64(s.pre), d).v : d \in {<<1, 0, 0, 0>>, <<0, 1, 0, 0>>, <<0, 0, 1, 0>>} } }
       \cup { [b EXCEPT !.buf.l1 = d] : d \in {0 - la, 0 - 1, 1, 4 + lb, 65535, 65536, 16777216, 1000000, 2000000000} }
       \cup { [b EXCEPT !.buf.l2 = d] : d \in {0 - lb, 0 - 1, 1, 99, 100, 101, 65535, 65536, 16777216, 1000000, 2000000000} }
       \cup { [b EXCEPT !.buf.l2 = d, !.buf.post = 66000] : d \in {7000, 65535, 65536} }
\* shreds carrying a tail are read and stored whole
TailSeeds == [k : {"tail"}, t1 : {0, 1, 29, 100}, t2 : {0, 1, 29, 3000}]
TailCases(s) == { [Std([P1 EXCEPT !.tr = s.t1], [P2 EXCEPT !.tr = s.t2]) EXCEPT !.buf.pre = p, !.off = U64(p), !.buf.post = q] :
                    p \in {0, 5, 300}, q \in {0, 3} }

\* ------------------------------------------- instruction data and accounts
Who4 == << <<K("proof"), "r">>, <<PDA(K("N1"), U64(1000)), "w">>, <<K("ixsysvar"), "r">>, <<K("system"), "r">> >>
AccPool == { <<K("proof"), "r">>, <<PDA(K("N1"), U64(1000)), "w">>, <<K("ixsysvar"), "r">>,
             <<K("system"), "r">>, <<K("clock"), "r">>, <<K("R"), "w">>, <<PDA(K("N2"), U64(1000)), "w">> }
IxSeeds ==
    { [k |-> "tag", lo |-> n] : n \in {0, 32, 64, 96, 128, 160, 192, 224} }
    \cup { [k |-> "cut", lo |-> n] : n \in {0, 61, 122, 183, 244} }
    \cup { [k |-> "extra", n |-> n] : n \in {1, 2, 4, 8, 32, 64, 1000} }
    \cup { [k |-> "acc", p1 |-> x, p2 |-> y] : x \in AccPool, y \in AccPool }
    \cup { [k |-> "len", n |-> n] : n \in 0..7 }
    \cup { [k |-> "flags"] }
    \cup { [k |-> "field", f |-> f] : f \in {"rep", "dst", "node", "slot", "off"} }
IxCases(s) ==
    LET b == Merkle2 IN
    CASE s.k = "tag"   -> { [b EXCEPT !.tag = t] : t \in s.lo..(s.lo + 31) }
      [] s.k = "cut"   -> { [b EXCEPT !.cut = 0 - t] : t \in (s.lo + 1)..(s.lo + 61) }
      [] s.k = "extra" -> { [b EXCEPT !.cut = s.n] }
      [] s.k = "acc"   -> { [b EXCEPT !.acc = <<s.p1, s.p2, x, y>>] : x \in AccPool, y \in AccPool }
      [] s.k = "len"   -> { [b EXCEPT !.acc = SubSeq(Who4 \o << <<K("D"), "w">>, <<K("R"), "w">>, <<K("proof"), "r">> >>, 1, s.n)],
                            [b EXCEPT !.acc = SubSeq(<<Who4[1]>> \o Who4, 1, IF s.n > 5 THEN 5 ELSE s.n)] }
      [] s.k = "flags" -> { [b EXCEPT !.acc = << <<K("proof"), f1>>, <<PDA(K("N1"), U64(1000)), f2>>,
                                                 <<K("ixsysvar"), f3>>, <<K("system"), f4>> >>] :
                              f1 \in {"r", "w", "sr", "sw"}, f2 \in {"r", "w"}, f3 \in {"r", "w"}, f4 \in {"r", "w"} }
      [] s.k = "field" ->
           CASE s.f = "rep"  -> { [b EXCEPT !.rep = k] : k \in {K("D"), K("N1"), K("X"), K("system"), PdaOf(b)} }
             [] s.f = "dst"  -> { [b EXCEPT !.dst = k] : k \in {K("R"), K("N1"), K("X"), K("system"), PdaOf(b),
                                                                PDA(K("N2"), U64(1000)), K("proof"), K("slashing")} }
             [] s.f = "node" -> { [b EXCEPT !.node = k, !.acc = StdAcc(p)] :
                                    k \in {K("N1"), K("N2"), K("R")},
                                    p \in {PDA(K("N1"), U64(1000)), PDA(K("N2"), U64(1000)), K("X")} }
             [] s.f = "slot" -> { [b EXCEPT !.slot = v, !.acc = StdAcc(PDA(K("N1"), w))] :
                                    v \in {U64(1000), U64(999), U64(1001), <<0, 1, 0, 1000>>, <<1, 0, 0, 1000>>},
                                    w \in {U64(1000), U64(999), U64(1001)} }
             [] OTHER -> { b }

\* ---------------------------------------------------- funding, old accounts
FundSeeds == [k : {"fund"}, base : Bases, rate : {0, 1, 3480, 100000}, thr : {1, 2, 3}, old : {"none", "report"}]
FundCases(s) ==
    LET b == s.base
        min(len) == (128 + len) * s.rate * s.thr
        m == min(StoredLen(b))
        big == min(ReportHeader + 2 * 1232 + 8)
    IN { [b EXCEPT !.env.rate = s.rate, !.env.thr = s.thr, !.fund = f, !.old = s.old] :
           f \in { n \in {0, 1, m - 1, m, m + 1, big, 1000000000,
                          min(0), min(StoredLen(b) - ReportHeader), min(StoredLen(b) - 8),
                          RentMin(s.rate, StoredLen(b))} : n > 0 /\ (s.old = "report" => n > 0) } }
\* the report's address: every seed of it matters
AddrSeeds == [k : {"addr"}, node : Who, slot : {U64(1000), <<0, 0, 1, 1000>>, <<1, 0, 0, 1000>>, <<232, 3, 0, 0>>}]
AddrCases(s) ==
    LET a == [P1 EXCEPT !.slot = s.slot, !.by = s.node]
        b == [P2 EXCEPT !.slot = s.slot, !.by = s.node]
        std == [Std(a, b) EXCEPT !.slot = s.slot, !.node = K(s.node), !.env.slot = s.slot]
    IN { [std EXCEPT !.acc = StdAcc(p)] :
           p \in { PDA(K(n), sl) : n \in Who, sl \in {U64(1000), <<0, 0, 1, 1000>>, <<1, 0, 0, 1000>>, <<232, 3, 0, 0>>} }
                 \cup { <<"pda", K(s.node), s.slot, ty>> : ty \in {0, 1, 2} } \cup {K("X"), K("R")} }

\* ------------------------------------------------- combinations of faults
Mutators == <<
  "time", "future", "sysvar", "sysprog", "pda", "old", "dst", "fund", "acc3", "lead", "count",
  "entry", "edprog", "node", "buf", "off", "slot", "slot2", "ver", "same", "type", "idx", "codes",
  "legacy", "variant", "short", "place", "sig", "tag", "data", "ro", "far65" >>
Mutate(r, m) ==
    CASE m = "time"   -> [r EXCEPT !.env.slot = <<0, 0, 8, 0>>]
      [] m = "future" -> [r EXCEPT !.env.slot = U64(500)]
      [] m = "sysvar" -> IF Len(r.acc) < 3 THEN r ELSE [r EXCEPT !.acc[3] = <<K("clock"), "r">>]
      [] m = "sysprog"-> IF Len(r.acc) < 4 THEN r ELSE [r EXCEPT !.acc[4] = <<K("R"), "w">>]
      [] m = "pda"    -> [r EXCEPT !.acc[2] = <<PDA(K("N2"), U64(1000)), "w">>]
      [] m = "old"    -> [r EXCEPT !.old = "report"]
      [] m = "dst"    -> [r EXCEPT !.dst = PdaOf(r)]
      [] m = "fund"   -> [r EXCEPT !.fund = 9000000]
      [] m = "acc3"   -> [r EXCEPT !.acc = SubSeq(r.acc, 1, 3)]
      [] m = "lead"   -> [r EXCEPT !.lead = "gap"]
      [] m = "count"  -> [r EXCEPT !.ed.c0 = 1]
      [] m = "entry"  -> [r EXCEPT !.ed.es[1].ml = 31]
      [] m = "edprog" -> [r EXCEPT !.ed.prog = K("noop")]
      [] m = "node"   -> [r EXCEPT !.node = K("N2"), !.acc = StdAcc(PDA(K("N2"), U64(1000)))]
      [] m = "buf"    -> [r EXCEPT !.buf.cut = 1500]
      [] m = "off"    -> [r EXCEPT !.off = U64(2410)]
      [] m = "slot"   -> [r EXCEPT !.a.slot = U64(1001)]
      [] m = "slot2"  -> [r EXCEPT !.b.slot = U64(1001)]
      [] m = "ver"    -> [r EXCEPT !.a.ver = 8]
      [] m = "same"   -> [r EXCEPT !.b = r.a]
      [] m = "type"   -> [r EXCEPT !.b = CodeShred(U32(66), U32(70), 2, 4, 1)]
      [] m = "idx"    -> [r EXCEPT !.b = DataShred(U32(68), U32(64)), !.a = DataShred(U32(66), U32(64))]
      [] m = "codes"  -> [r EXCEPT !.b = CodeShred(U32(66), U32(64), 2, 4, 1),
                                   !.a = CodeShred(U32(67), U32(64), 2, 4, 2)]
      [] m = "legacy" -> [r EXCEPT !.a.va = IF IsData(r.a) THEN 165 ELSE 90]
      [] m = "variant"-> [r EXCEPT !.b.va = 32]
      [] m = "short"  -> [r EXCEPT !.b.len = 1000]
      [] m = "place"  -> IF IsData(r.a) THEN [r EXCEPT !.a.fec = U32(67)] ELSE [r EXCEPT !.a.nd = 500]
      [] m = "sig"    -> [r EXCEPT !.a.by = "N2"]
      [] m = "tag"    -> [r EXCEPT !.tag = 2]
      [] m = "data"   -> [r EXCEPT !.cut = 0 - 1]
      [] m = "ro"     -> [r EXCEPT !.acc[2][2] = "r"]
      [] m = "far65"  -> [r EXCEPT !.ed.es[2].si = 65535]
ComboSeeds == [k : {"combo"}, i : 1..Len(Mutators), j : 1..Len(Mutators), base : IF Deep THEN Bases ELSE {Merkle2}]
ComboCases(s) ==
    IF s.i > s.j THEN {} ELSE
    LET one == Mutate(s.base, Mutators[s.i])
        two == Mutate(one, Mutators[s.j])
    IN {one, two, Mutate(Mutate(s.base, Mutators[s.j]), Mutators[s.i])}
       \cup { Mutate(two, Mutators[k]) :
                k \in {k \in s.j..Len(Mutators) : Deep \/ (s.i + s.j + k) % 3 = 0} }

\* -------------------------------------------------------------- families
Seeds ==
    CASE Family = "arrange" -> [first : Arranged]
      [] Family = "claims"  -> [first : {s \in Claims : GoodClaim(s)} \cup KeySeeds \cup PartSeeds \cup LongSeeds \cup CopySeeds \cup NearSeeds]
      [] Family = "over"    -> [first : OverSeeds]
      [] Family = "proxy"   -> [first : {[k |-> "proxy"]}]
      [] Family = "window"  -> [first : WindowSeeds]
      [] Family = "buffer"  -> [first : BufferSeeds \cup TailSeeds]
      [] Family = "ix"      -> [first : IxSeeds]
      [] Family = "fund"    -> [first : FundSeeds \cup AddrSeeds]
      [] Family = "combo"   -> [first : ComboSeeds]
Cases(s) ==
    CASE s.k = "arr"    -> ArrangedCases(s)
      [] s.k = "over"   -> OverCases(s)
      [] s.k = "claim"  -> ClaimCases(s)
      [] s.k = "keys"   -> KeyCases(s)
      [] s.k = "parts"  -> PartCases(s)
      [] s.k = "long"   -> LongCases(s)
      [] s.k = "near"   -> NearCases(s)
      [] s.k = "copies" -> CopyCases(s)
      [] s.k = "proxy"  -> ProxyCases
      [] s.k = "window" -> WindowCases(s)
      [] s.k = "buffer" -> BufferCases(s)
      [] s.k = "tail"   -> TailCases(s)
      [] s.k = "fund"   -> FundCases(s)
      [] s.k = "addr"   -> AddrCases(s)
      [] s.k = "combo"  -> ComboCases(s)
      [] OTHER          -> IxCases(s)

Init == c \in Seeds
Next == "first" \in DOMAIN c /\ c' \in {x \in Cases(c.first) : Consistent(x.a, x.b)}
Sane == IsCase(c) => RulesSane(c)
Send == IsCase(c) => Out(IF Family = "fund" /\ c.env.slot = c.slot THEN "addr" ELSE Family, c)
=============================================================================
