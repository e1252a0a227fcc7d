------------------------------ MODULE GenClose ------------------------------
(* A single close, in every detail the program can see (C09, C10, C11, C17).

   A case c:
     own        owner of the account offered
     dat        what it holds: "report" (as recorded), "cutN" (its first N
                bytes), "zeroN" (N zero bytes)
     lam        its balance
     e, now     recorded epoch, current epoch
     rec        recorded destination
     dst        destination offered
     dk         what is at the destination: "none", "system", "data"
     acc        "std" or how the account list is bent
     tag, more  type byte, bytes after it
     via        "direct", "proxy", "second" (with another close before it)   *)
EXTENDS Emit
CONSTANTS Family, Deep
VARIABLE c

Slot == U64(1000)
At == PDA(K("N1"), Slot)
Body == << <<"shredlen", "a">>, <<"shred", "a">>, <<"shredlen", "b">>, <<"shred", "b">> >>
RepLen == ReportHeader + 8 + Length(P1) + Length(P2)
Base ==
    [own |-> "slashing", dat |-> [k |-> "report"], lam |-> RentMin(DefaultRate, RepLen), e |-> U64(5), now |-> U64(8),
     rec |-> K("D"), dst |-> K("D"), dk |-> "none", acc |-> "std", tag |-> 0, more |-> 0, via |-> "direct"]
Report(x) == ReportParts(K("R"), x.rec, x.e, K("N1"), Slot, Body)
Data(x) ==
    CASE x.dat.k = "report" -> Report(x)
      [] x.dat.k = "cut"    -> << <<"cut", x.dat.n, Report(x)>> >>
      [] x.dat.k = "zero"   -> IF x.dat.n = 0 THEN <<>> ELSE << <<"z", x.dat.n>> >>
DataLen2(x) ==
    CASE x.dat.k = "report" -> RepLen
      [] x.dat.k \in {"cut", "zero"} -> x.dat.n

Metas(x) ==
    LET a == <<At, "w">>  d == <<x.dst, "w">> IN
    CASE x.acc = "std"   -> <<a, d>>
      [] x.acc = "none"  -> <<>>
      [] x.acc = "one"   -> <<a>>
      [] x.acc = "swap"  -> <<d, a>>
      [] x.acc = "same"  -> <<a, a>>
      [] x.acc = "roat"  -> << <<At, "r">>, d>>
      [] x.acc = "rodst" -> <<a, <<x.dst, "r">> >>
      [] x.acc = "more"  -> <<a, d, <<K("E"), "w">>, <<K("N1"), "w">> >>
      [] x.acc = "late"  -> <<a, <<K("E"), "w">>, d>>
      [] x.acc = "twice" -> <<a, d, a, d>>

\* what the destination offered to the program really is
Offered(x) ==
    CASE x.acc \in {"none", "one"} -> <<>>
      [] x.acc = "swap" -> At
      [] x.acc = "same" -> At
      [] x.acc = "late" -> K("E")
      [] OTHER -> x.dst
Target(x) == IF x.acc = "swap" THEN x.dst ELSE At
IsRep(x) == x.own = "slashing" /\ x.dat.k = "report" /\ Target(x) = At
Due(x) == LET y == Add(x.e, U64(3)) IN y.ok /\ ~NumLt(x.now, y.v)
CFaults(x) ==
    (IF x.tag # 0 THEN {"InvalidInstruction", "MissingInstructionsSysvar", "other: a submission"} ELSE {})
    \cup (IF x.acc \in {"none", "one"} THEN {"other: accounts"} ELSE {})
    \cup (IF ~IsRep(x) THEN {"InvalidViolationReportAcccount"} ELSE {})
    \cup (IF IsRep(x) /\ ~Due(x) THEN {"CloseViolationReportTooSoon"} ELSE {})
    \cup (IF IsRep(x) /\ x.rec # Offered(x) THEN {"InvalidDestinationAccount"} ELSE {})
    \cup (IF x.acc \in {"roat", "rodst"} THEN {"other: not writable"} ELSE {})
    \cup (IF x.via = "second" THEN {"InvalidViolationReportAcccount"} ELSE {})
\* a report too short to be one, but with a version: cannot come about
Unreal(x) == x.dat.k = "cut" /\ x.dat.n > 0 /\ x.own = "slashing"
\* in the last epoch of all: no epoch is three epochs later
EndOfTime(x) == ~Add(x.e, U64(3)).ok /\ x.now = <<65535, 65535, 65535, 65535>>
Verdict(x) ==
    IF Unreal(x) \/ (EndOfTime(x) /\ CFaults(x) \subseteq {"CloseViolationReportTooSoon"}) THEN "any"
    ELSE IF CFaults(x) # {} THEN "err"
    ELSE IF x.more > 0 THEN "any" ELSE "ok"

CloseProps(x) ==
    LET f == CFaults(x) IN
    [accepted |-> (IF x.tag # 0 \/ x.acc \in {"none", "one", "roat", "rodst"} THEN {"C17"} ELSE {})
                  \cup (IF ~IsRep(x) \/ x.via = "second" THEN {"C11"} ELSE {})
                  \cup (IF IsRep(x) /\ ~Due(x) THEN {"C09"} ELSE {})
                  \cup (IF "InvalidDestinationAccount" \in f THEN {"C10"} ELSE {}),
     refused |-> {"C09"}, content |-> {"C10"}, money |-> {"C10"}, other |-> {"C10"}, altered |-> {"C10"}]
Ix(x) == [p |-> K("slashing"), a |-> Metas(x), d |-> << <<"u8", x.tag>>, <<"f", "more", x.more>> >>]
Before(x) ==
    IF x.dk = "none" THEN 0 ELSE 2000000
Scen(x) ==
    [g |-> Family, env |-> [slot |-> U64(3000), epoch |-> x.now, spe |-> U64(432000), rate |-> DefaultRate],
     shreds |-> [a |-> ShredTerm(P1), b |-> ShredTerm(P2)],
     accts |-> << [k |-> At, lam |-> x.lam, own |-> K(x.own), data |-> Data(x)],
                  [k |-> K("E"), lam |-> 7000000, own |-> K("system"), data |-> <<>>],
                  [k |-> K("N1"), lam |-> 9000000, own |-> K("system"), data |-> <<>>] >>
               \o (IF x.dk = "none" \/ x.dst \in {K("E"), K("N1"), At} THEN <<>>
                   ELSE << [k |-> x.dst, lam |-> 2000000, own |-> K(IF x.dk = "data" THEN "record" ELSE "system"),
                            data |-> IF x.dk = "data" THEN << <<"f", "dd", 20>> >> ELSE <<>>] >>),
     txs |-> << [ixs |-> CASE x.via = "direct" -> << Ix(x) >>
                           [] x.via = "second" -> << Ix(x), Ix(x) >>
                           [] x.via = "proxy" ->
                                << [p |-> K("proxy"), a |-> Metas(x) \o << <<K("slashing"), "r">> >>,
                                    d |-> <<>>, inner |-> << Ix(x) >>] >>,
                 x |-> [v |-> Verdict(x), codes |-> Codes(CFaults(x) \cup
                                 (IF Unreal(x) THEN {"CloseViolationReportTooSoon", "InvalidDestinationAccount"} ELSE {})), at |-> "ix", pr |-> CloseProps(x),
                        delta |->
                          IF Verdict(x) = "err" THEN <<>> ELSE
                          << [k |-> At, gone |-> TRUE],
                             [k |-> x.dst,
                              lam |-> x.lam + (IF x.dst = K("E") THEN 7000000 ELSE IF x.dst = K("N1") THEN 9000000 ELSE Before(x)),
                              own |-> K(IF x.dk = "data" /\ x.dst \notin {K("E"), K("N1")} THEN "record" ELSE "system"),
                              data |-> IF x.dk = "data" /\ x.dst \notin {K("E"), K("N1")} THEN << <<"f", "dd", 20>> >> ELSE <<>>] >>]] >>]

\* ------------------------------------------------------------------- cases
Epochs == { U64(0), U64(1), U64(5), U64(65534), <<0, 0, 65535, 65533>>, <<0, 1, 0, 0>>, <<0, 65535, 65535, 65535>>,
            <<32767, 65535, 65535, 65534>>, <<32768, 0, 0, 0>>, <<65535, 65535, 65535, 65532>>,
            <<65535, 65535, 65535, 65533>>, <<65535, 65535, 65535, 65534>>, <<65535, 65535, 65535, 65535>> }
Around(e) ==
    { y.v : y \in { y \in { Add(e, U64(d)) : d \in {0, 1, 2, 3, 4, 256, 65536} } \cup { Sub(e, U64(d)) : d \in {1, 3} }
                         \cup { Add(e, <<0, 1, 0, 0>>), Sub(e, <<0, 1, 0, 0>>), Add(e, <<1, 0, 0, 0>>) } : y.ok } }
    \cup { U64(0), U64(3), <<65535, 65535, 65535, 65535>> }
Dsts == { K("D"), K("E"), K("N1"), K("R"), At, PDA(K("N2"), Slot), K("slashing") }
Seeds ==
    CASE Family = "epochs" -> { [k |-> "epochs", e |-> e] : e \in Epochs }
      [] Family = "dests"  -> { [k |-> "dests", rec |-> r] : r \in Dsts \ {At, K("slashing")} }
      [] Family = "junk"   -> { [k |-> "junk", own |-> o] : o \in {"slashing", "system", "record", "noop"} }
      [] Family = "forms"  -> { [k |-> "forms", acc |-> a] :
                                  a \in {"std", "none", "one", "swap", "same", "roat", "rodst", "more", "late", "twice"} }
Lams == { RentMin(DefaultRate, RepLen), RentMin(DefaultRate, RepLen) + 1, 1000000000 }
Cases(s) ==
    CASE s.k = "epochs" -> { [Base EXCEPT !.e = s.e, !.now = n, !.dst = d, !.via = v] :
                               n \in Around(s.e), d \in {K("D"), K("E")}, v \in {"direct", "proxy"} }
      [] s.k = "dests"  -> { [Base EXCEPT !.rec = s.rec, !.dst = d, !.dk = dk, !.lam = l, !.now = n] :
                               d \in Dsts \cup (IF s.rec = K("D") THEN { <<"near", K("D"), n>> : n \in 0..31 } ELSE {}),
                               dk \in {"none", "system", "data"}, l \in Lams, n \in {U64(7), U64(8)} }
      [] s.k = "junk"   -> { [Base EXCEPT !.own = s.own, !.dat = d, !.dst = t, !.now = n, !.e = U64(0), !.lam = 30000000] :
                               d \in { [k |-> "report"] }
                                     \cup { [k |-> "zero", n |-> n] :
                                              n \in {0, 1, 32, 33, 64, 65, 72, 73, 112, 113, 114, 115, 145, 146, 2528, 5000} }
                                     \cup { [k |-> "cut", n |-> n] : n \in {1, 73, 113, 114} },
                               t \in { K("D"), K("raw"), K("system"), <<"raw", 0>>, At },
                               n \in { U64(2), U64(3), <<65535, 65535, 65535, 65535>> } }
      [] s.k = "forms"  -> { [Base EXCEPT !.acc = s.acc, !.tag = t, !.more = m, !.now = n, !.via = v, !.dk = dk, !.dat = d] :
                               t \in {0, 1, 2, 255}, m \in {0, 1, 8, 304}, n \in {U64(7), U64(8)},
                               v \in {"direct", "proxy", "second"}, dk \in {"none", "data"},
                               d \in { [k |-> "report"], [k |-> "zero", n |-> 2528] } }
Init == c \in [first : Seeds]
Next == "first" \in DOMAIN c /\ c' \in Cases(c.first)
IsC == "dat" \in DOMAIN c
Sane == IsC => (Verdict(c) = "ok" => CFaults(c) = {})
Send == IsC => PrintT(ToJson(Scen(c)))
=============================================================================
