------------------------------ MODULE GenHelper ------------------------------
(* The published building blocks: the instruction helpers (C16) and the codec of
   proofs (C14).

   Helpers.  A case h is a genuine conflict and the parameters a reporter
   chooses; the instructions the helper returns are put first in a transaction
   and must do all of it.  What they are is not prescribed, except whose
   signature they need: the funder pays, so he signs, and nobody else does.  How
   much he pays is not prescribed either, but it is enough for two shreds of the
   largest size the network uses.

   Codec.  A call is a pure function applied to bytes.                        *)
EXTENDS Emit
CONSTANTS Family, Deep
VARIABLE c

C1 == CodeShred(U32(66), U32(64), 2, 4, 1)
C2 == [CodeShred(U32(67), U32(64), 3, 4, 1) EXCEPT !.tree = "t1"]
Pairs ==
    { <<P1, P2>>, <<P2, P1>>,
      <<C1, C2>>, <<C2, C1>>,                                                       \* erasure layout
      << [P1 EXCEPT !.fl = 192], [P1 EXCEPT !.idx = U32(70), !.fec = U32(68), !.tree = "t3"] >>,   \* beyond the last
      << [C1 EXCEPT !.nd = 8, !.tree = "t4"], [P1 EXCEPT !.idx = U32(70), !.fec = U32(68)] >>,     \* overlap
      << [P1 EXCEPT !.idx = U32(70), !.fec = U32(68)], [C1 EXCEPT !.nd = 8, !.tree = "t4"] >>,
      << [P1 EXCEPT !.idx = U32(70)], [P1 EXCEPT !.idx = U32(70), !.fec = U32(69), !.tree = "t5", !.body = "b2"] >>,   \* same index
      << [P1 EXCEPT !.va = 182], [P2 EXCEPT !.va = 150] >>,
      << [C1 EXCEPT !.va = 118], [C1 EXCEPT !.va = 97, !.body = "b2", !.tree = "t6", !.nd = 1, !.pos = 0, !.nc = 1] >> }
At(s, slot, by) == [s EXCEPT !.slot = slot, !.by = by]
\* bytes a node's receive buffer may leave behind the shred
Padded(s) == [s EXCEPT !.tr = 1232 - PayloadLen(s.va)]

Base == [pair |-> <<P1, P2>>, slot |-> U64(1000), node |-> "N1", rep |-> "R", dst |-> "D", funder |-> "none", payer |-> "R",
         off |-> 0, rate |-> DefaultRate, thr |-> 2, epoch |-> U64(9), after |-> 0, how |-> "three", cut |-> 0]
Big(rate, thr) == (128 + ReportHeader + 8 + 2 * 1228) * rate * thr
From(h) == K(IF h.funder = "none" THEN h.rep ELSE h.funder)
Where(h) == PDA(K(h.node), h.slot)
A(h) == At(h.pair[1], h.slot, h.node)
B(h) == At(h.pair[2], h.slot, h.node)
All(h) == [pr |-> {"C16"}]
HelpArgs(h) ==
    [proof |-> K("proof"), off |-> h.off, slot |-> h.slot, node |-> K(h.node), rep |-> K(h.rep), dst |-> K(h.dst),
     s1 |-> "a", s2 |-> "b", funder |-> IF h.funder = "none" THEN <<>> ELSE K(h.funder), rate |-> h.rate, thr |-> h.thr]
C16Props == [accepted |-> {"C16"}, refused |-> {"C16"}, content |-> {"C16"}, money |-> {"C16"}, other |-> {"C16"}, altered |-> {"C16"}]
\* accounts that stand by
Others == {"R", "D", "N1", "N2", "F"}
Noops(n) == [i \in 1..n |-> [p |-> K("noop"), a |-> <<>>, d |-> << <<"f", "n", 8>> >>]]
Prefund(h) == IF h.how = "three" THEN 0 ELSE Big(h.rate, h.thr)
ReportTx(h) ==
    [ixs |-> (CASE h.how = "three"  -> << [help |-> "three", h |-> HelpArgs(h)] >>
                [] h.how = "submit" -> << [p |-> K("ed25519"), a |-> <<>>, d |-> Ed25519Parts(2, 0, StdEntries(1))],
                                          [help |-> "submit", h |-> HelpArgs(h)] >>)
             \o Noops(h.after),
     x |-> [v |-> "ok", at |-> "tx", pr |-> C16Props,
            signers |-> IF h.how = "three" THEN << From(h) >> ELSE <<>>,
            payer |-> K(h.payer),
            delta |-> << [k |-> Where(h), lam |-> Prefund(h), own |-> K("slashing"),
                          data |-> ReportParts(K(h.rep), K(h.dst), h.epoch, K(h.node), h.slot, Packed)],
                         [k |-> From(h), lam |-> 2000000000, own |-> K("system"), data |-> <<>>] >>]
            @@ (IF h.how = "three" THEN [pay |-> << From(h), Where(h), Big(h.rate, h.thr) >>] ELSE <<>>)]
\* too early by one epoch, then due; `after` the transaction the report's balance
\* is not known to the specification, only that the destination gets it
CloseTx(h, e, ok) ==
    [env |-> [epoch |-> e],
     ixs |-> << [help |-> "close", h |-> HelpArgs(h)] >> \o Noops(h.after),
     x |-> [v |-> IF ok THEN "ok" ELSE "err", at |-> "tx", pr |-> C16Props, signers |-> <<>>, payer |-> K(h.payer)]
           @@ (IF ok THEN [sweep |-> << Where(h), K(h.dst) >>, delta |-> << [k |-> Where(h), gone |-> TRUE] >>]
               ELSE [delta |-> <<>>])]
HelpScen(h) ==
    [g |-> "helper",
     env |-> [slot |-> Add(h.slot, U64(5)).v, epoch |-> h.epoch, spe |-> U64(432000), rate |-> h.rate, thr |-> h.thr],
     shreds |-> [a |-> ShredTerm(A(h)), b |-> ShredTerm(B(h))],
     accts |-> << [k |-> K("proof"), lam |-> 30000000, own |-> K("record"),
                   data |-> << <<"f", "pre", h.off>> >> \o Packed \o << <<"f", "post", 17>> >>] >>
               \o [i \in 1..5 |-> [k |-> K(<<"R", "D", "N1", "N2", "F">>[i]), lam |-> 2000000000, own |-> K("system"), data |-> <<>>]]
               \o (IF h.how = "three" THEN <<>>
                   ELSE << [k |-> Where(h), lam |-> Prefund(h), own |-> K("system"), data |-> <<>>] >>),
     txs |-> << ReportTx(h), CloseTx(h, Add(h.epoch, U64(2)).v, FALSE), CloseTx(h, Add(h.epoch, U64(3)).v, TRUE) >>]

Slots == { U64(0), U64(1), U64(1000), <<0, 0, 65535, 65535>>, <<0, 1, 0, 0>>, <<4660, 22136, 39612, 57072>>, <<65535, 65535, 65535, 65530>> }
HelpSeeds == [k : {"help"}, pair : Pairs, slot : Slots]
HelpCases(s) ==
    LET b == [Base EXCEPT !.pair = s.pair, !.slot = s.slot] IN
    { [b EXCEPT !.node = n, !.rep = r, !.dst = d, !.funder = f, !.payer = p] :
        n \in {"N1", "N2"}, r \in {"R", "D", "N1"}, d \in {"D", "R", "N2"},
        f \in {"none", "R", "F", "N1", "D"}, p \in IF Deep THEN {"R", "F", "N2"} ELSE {"F"} }
    \cup { [b EXCEPT !.off = o, !.rate = r, !.thr = t, !.epoch = e, !.after = a, !.funder = f, !.how = w] :
        o \in {0, 1, 33, 4000}, r \in {1, 3480, 6960}, t \in {1, 2, 3}, e \in {U64(0), <<0, 1, 0, 3>>},
        a \in {0, 2}, f \in {"none", "F"}, w \in {"three", "submit"} }
    \cup { [b EXCEPT !.pair = <<IF i = 2 THEN s.pair[1] ELSE Padded(s.pair[1]), IF i = 1 THEN s.pair[2] ELSE Padded(s.pair[2])>>, !.off = o] :
        i \in 1..3, o \in {0, 33} }
IsHelp == "how" \in DOMAIN c
HelpSane == IsHelp => (Conflicts(A(c), B(c)) # {} /\ WellFormed(A(c)) /\ WellFormed(B(c)))

\* ------------------------------------------------------------------- codec
\* the two byte strings in a buffer of n bytes stating lengths l1 and l2
Unpack(n, l1, l2) ==
    IF n < 4 \/ n < 4 + l1 \/ n < 8 + l1 \/ n < 8 + l1 + l2 THEN "err" ELSE "ok"
Lens == {0, 1, 2, 3, 4, 5, 8, 64, 113, 114, 255, 256, 257, 1203, 1228, 1232, 4096, 65535, 65536, 65537, 70000}
CodecSeeds == [k : {"codec"}, la : Lens]
Str(n, l) == << <<"f", n, l>> >>
CodecCases(s) ==
    UNION { { [call |-> "pack", la |-> s.la, lb |-> lb] } \cup
            { [call |-> "unpack", la |-> s.la, lb |-> lb, n |-> m, d |-> d] :
                m \in { m \in {0, 1, 3, 4, 5, 3 + s.la, 4 + s.la, 5 + s.la, 7 + s.la, 8 + s.la, 7 + s.la + lb, 8 + s.la + lb, 9 + s.la + lb, 108 + s.la + lb} :
                          m <= 108 + s.la + lb }, d \in {0} }
            : lb \in Lens }
\* stated lengths over the u32 range, with a short buffer
Wild == { U32(0), U32(1), <<0, 300>>, <<0, 65535>>, <<1, 0>>, <<32767, 65535>>, <<32768, 0>>, <<65535, 65529>>, <<65535, 65535>> }
WildSeeds == [k : {"wild"}, l1 : Wild]
WildCases(s) == { [call |-> "wild", l1 |-> s.l1, l2 |-> l2, n |-> n] : l2 \in Wild, n \in {0, 4, 8, 100, 307, 308, 309, 600} }
IsCodec == "call" \in DOMAIN c
Buffer(x) == << <<"u32", x.la>> >> \o Str("one", x.la) \o << <<"u32", x.lb>> >> \o Str("two", x.lb)
WildStarts(x) == IF NumLt(x.l1, <<0, 1000>>) THEN ToInt(x.l1) ELSE 2000
WildBuf(x) ==
    << <<"cut", x.n, << <<"u32", x.l1>> >> \o Str("one", WildStarts(x)) \o << <<"u32", x.l2>> >> \o Str("two", 1000)>> >>
WildOk(x) ==
    /\ NumLt(x.l1, <<0, 1000>>) /\ NumLt(x.l2, <<0, 1000>>)
    /\ Unpack(x.n, ToInt(x.l1), ToInt(x.l2)) = "ok"
CodecScen(x) ==
    [g |-> "codec", txs |-> <<>>,
     calls |->
       CASE x.call = "pack" ->
              << [f |-> "pack", a |-> Str("one", x.la), b |-> Str("two", x.lb), want |-> Buffer(x), pr |-> {"C14"}],
                 [f |-> "lens", a |-> Str("one", x.la), b |-> Str("two", x.lb), want |-> <<8 + x.la + x.lb, ReportHeader + 8 + x.la + x.lb>>, pr |-> {"C14"}],
                 [f |-> "roundtrip", a |-> Str("one", x.la), b |-> Str("two", x.lb), pr |-> {"C14"}] >>
         [] x.call = "unpack" ->
              << [f |-> "unpack", d |-> << <<"cut", x.n, Buffer(x) \o Str("three", 100)>> >>, pr |-> {"C14"}]
                 @@ (IF Unpack(x.n, x.la, x.lb) = "ok" THEN [a |-> Str("one", x.la), b |-> Str("two", x.lb)] ELSE [err |-> {"ProofBufferTooSmall"}, codes |-> Codes({"ProofBufferTooSmall"})]) >>
         [] x.call = "wild" ->
              << [f |-> "unpack", d |-> WildBuf(x), pr |-> {"C14"}]
                 @@ (IF WildOk(x) THEN [a |-> Str("one", ToInt(x.l1)), b |-> << <<"cut", ToInt(x.l2), Str("two", 1000)>> >>]
                     ELSE [err |-> {"ProofBufferTooSmall"}, codes |-> Codes({"ProofBufferTooSmall"})]) >>]
\* published derivations and sizes
FactSeeds == [k : {"facts"}, node : {"N1", "N2", "R"}]
FactCases(s) == { [fact |-> s.node, slot |-> sl] : sl \in Slots \cup { <<0, 0, 0, n>> : n \in 2..(IF Deep THEN 400 ELSE 40) } }
IsFact == "fact" \in DOMAIN c
FactScen(x) ==
    [g |-> "facts", txs |-> <<>>,
     calls |-> << [f |-> "address", node |-> K(x.fact), slot |-> x.slot, want |-> PDA(K(x.fact), x.slot), pr |-> {"C07", "C16"}],
                  [f |-> "sizes", proof |-> 8 + 2 * 1228, report |-> ReportHeader + 8 + 2 * 1228, sigdata |-> Field["root1"].at, pr |-> {"C16"}],
                  [f |-> "report", d |-> ReportParts(K("R"), K("D"), Add(x.slot, U64(1)).v, K(x.fact), x.slot, <<>>),
                   version |-> 1, slot |-> x.slot, epoch |-> Add(x.slot, U64(1)).v, pr |-> {"C06"}] >>]

Init == c \in [first : CASE Family = "helper" -> HelpSeeds [] Family = "codec" -> CodecSeeds \cup WildSeeds [] Family = "facts" -> FactSeeds]
Next ==
    "first" \in DOMAIN c /\
    c' \in CASE c.first.k = "help"  -> HelpCases(c.first)
             [] c.first.k = "codec" -> CodecCases(c.first)
             [] c.first.k = "wild"  -> WildCases(c.first)
             [] c.first.k = "facts" -> FactCases(c.first)
Sane == HelpSane
Send ==
    CASE IsHelp  -> PrintT(ToJson(HelpScen(c)))
      [] IsCodec -> PrintT(ToJson(CodecScen(c)))
      [] IsFact  -> PrintT(ToJson(FactScen(c)))
      [] OTHER   -> TRUE
=============================================================================
